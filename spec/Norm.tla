-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* Unicode normalization (UAX #15, Unicode Standard section 3.11 and 3.12) *)
(* stated declaratively over the Unicode 15.1.0 decomposition mappings.    *)
(*   D64..D68 decomposition, D108/D109 canonical ordering, D110..D117      *)
(*   composition.  Strings are sequences of integers (scalar values).      *)
(***************************************************************************)
EXTENDS Ucd, SequencesExt, FiniteSetsExt

Decomp == JsonDeserialize(DataDir \o "/decomp.json")
DM == Decomp.dm
DmIdx(c) == Decomp.s2[Decomp.s1[(c \div 256) + 1]][(c % 256) + 1]

CCC(c) == Base(c).ccc
Starter(c) == CCC(c) = 0

----------------------------------------------------------------------------
(* Hangul, section 3.12: no table, only arithmetic.                         *)
SBase == 44032   LBase == 4352   VBase == 4449   TBase == 4519
LCount == 19     VCount == 21    TCount == 28
NCount == VCount * TCount
SCount == LCount * NCount
IsSyllable(c) == c \in SBase .. (SBase + SCount - 1)
IsLV(c) == IsSyllable(c) /\ (c - SBase) % TCount = 0
IsL(c) == c \in LBase .. (LBase + LCount - 1)
IsV(c) == c \in VBase .. (VBase + VCount - 1)
IsT(c) == c \in (TBase + 1) .. (TBase + TCount - 1)
HangulPair(c) == LET s == c - SBase IN
   IF s % TCount = 0
   THEN <<LBase + (s \div NCount), VBase + ((s % NCount) \div TCount)>>
   ELSE <<c - (s % TCount), TBase + (s % TCount)>>

----------------------------------------------------------------------------
(* One step of decomposition: the Decomposition_Mapping of c.               *)
Dt(c) == Base(c).dt
HasCan(c) == IsSyllable(c) \/ (DmIdx(c) # 0 /\ DM[DmIdx(c)].can)
HasAny(c) == IsSyllable(c) \/ DmIdx(c) # 0
Mapping(c) == IF IsSyllable(c) THEN HangulPair(c)
              ELSE IF DmIdx(c) # 0 THEN DM[DmIdx(c)].map ELSE <<c>>
CanStep(c) == IF HasCan(c) THEN Mapping(c) ELSE <<c>>

(* Full decomposition: the fixpoint.  compat selects NFKD over NFD.         *)
RECURSIVE FullOf(_, _)
FullOf(c, compat) ==
  LET m == IF compat \/ HasCan(c) THEN Mapping(c) ELSE <<c>>
  IN IF m = <<c>> THEN m
     ELSE FoldLeft(LAMBDA acc, x : acc \o FullOf(x, compat), <<>>, m)

(* ... tabulated for the listed mappings (Hangul stays arithmetic) *)
FullCanTab == [i \in 1 .. Len(DM) |-> FullOf(DM[i].cp, FALSE)]
FullComTab == [i \in 1 .. Len(DM) |-> FullOf(DM[i].cp, TRUE)]
FullCan(c) == IF IsSyllable(c) THEN FullOf(c, FALSE)
              ELSE LET i == DmIdx(c) IN IF i = 0 THEN <<c>> ELSE FullCanTab[i]
FullCom(c) == IF IsSyllable(c) THEN FullOf(c, TRUE)
              ELSE LET i == DmIdx(c) IN IF i = 0 THEN <<c>> ELSE FullComTab[i]
Decompose(s, compat) ==
  FoldLeft(LAMBDA acc, c : acc \o (IF compat THEN FullCom(c) ELSE FullCan(c)), <<>>, s)

----------------------------------------------------------------------------
(* Canonical ordering, D109: within a run of non-starters, sort by          *)
(* combining class keeping the relative order of equal classes.             *)
SortedClasses == SetToSortSeq({b.ccc : b \in Range(Atoms.vecs)} \ {0}, <)
OrderByClass(r) == LET present == {CCC(r[i]) : i \in 1 .. Len(r)} IN
  FoldLeft(LAMBDA acc, k : IF k \in present THEN acc \o SelectSeq(r, LAMBDA c : CCC(c) = k) ELSE acc,
           <<>>, SortedClasses)
OrderBySort(r) ==
  LET k == [i \in 1 .. Len(r) |-> <<CCC(r[i]), i>>]
      o == SortSeq(k, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
  IN [i \in 1 .. Len(r) |-> r[o[i][2]]]
(* two statements of the same stable sort (equal: NormMC); the second suits short runs *)
OrderRun(r) == IF Len(r) < 2 THEN r ELSE IF Len(r) > 24 THEN OrderByClass(r) ELSE OrderBySort(r)
Reorder(s) ==
  LET f == FoldLeft(LAMBDA a, c : IF Starter(c) THEN [out |-> a.out \o OrderRun(a.run) \o <<c>>, run |-> <<>>]
                                  ELSE [out |-> a.out, run |-> Append(a.run, c)],
                    [out |-> <<>>, run |-> <<>>], s)
  IN f.out \o OrderRun(f.run)

InCanonicalOrder(s) == \A i \in 1 .. (Len(s) - 1) : CCC(s[i + 1]) = 0 \/ CCC(s[i]) <= CCC(s[i + 1])

----------------------------------------------------------------------------
(* Composition exclusion: D112..D114 and UAX #15.                           *)
Singleton(c) == HasCan(c) /\ Len(CanStep(c)) = 1
NonStarterDecomposition(c) == LET d == FullCan(c) IN
    Len(d) > 1 /\ (CCC(c) # 0 \/ CCC(d[1]) # 0)
CompEx(c) == Base(c).ce \/ (HasCan(c) /\ ~IsSyllable(c) /\ (Singleton(c) \/ NonStarterDecomposition(c)))

(* The primary composites with a table entry, as first -> second -> composite *)
PrimaryDM == SelectSeq(DM, LAMBDA d : d.can /\ Len(d.map) = 2 /\ ~CompEx(d.cp))
Firsts  == {d.map[1] : d \in Range(PrimaryDM)}
Seconds == {d.map[2] : d \in Range(PrimaryDM)}
PairFcn == FoldLeft(LAMBDA f, d : [f EXCEPT ![d.map] = d.cp],
                    [p \in {d.map : d \in Range(PrimaryDM)} |-> 0], PrimaryDM)
PairDom == DOMAIN PairFcn
NoComposite == -1
Composite(l, c) ==
  IF IsL(l) /\ IsV(c) THEN SBase + (l - LBase) * NCount + (c - VBase) * TCount
  ELSE IF IsLV(l) /\ IsT(c) THEN l + (c - TBase)
  ELSE IF <<l, c>> \in PairDom THEN PairFcn[<<l, c>>] ELSE NoComposite

(* D117.  st: position in out of the last starter (0: none); prev: combining *)
(* class of the last character kept after it (-1: nothing between).          *)
Compose(s) ==
  FoldLeft(LAMBDA a, c :
     LET k == CCC(c)
         blocked == a.st = 0 \/ (a.prev # -1 /\ (a.prev = 0 \/ a.prev >= k))
         p == IF blocked THEN NoComposite ELSE Composite(a.out[a.st], c)
     IN IF p # NoComposite THEN [a EXCEPT !.out[a.st] = p]
        ELSE [out |-> Append(a.out, c),
              st |-> IF k = 0 THEN Len(a.out) + 1 ELSE a.st,
              prev |-> IF k = 0 THEN -1 ELSE k],
     [out |-> <<>>, st |-> 0, prev |-> -1], s).out

NFD(s)  == Reorder(Decompose(s, FALSE))
NFKD(s) == Reorder(Decompose(s, TRUE))
NFC(s)  == Compose(NFD(s))
NFKC(s) == Compose(NFKD(s))
Forms == {"nfd", "nfc", "nfkd", "nfkc"}
NF(f, s) == CASE f = "nfd" -> NFD(s) [] f = "nfc" -> NFC(s)
              [] f = "nfkd" -> NFKD(s) [] f = "nfkc" -> NFKC(s)
CanonicallyEquivalent(s, t) == NFD(s) = NFD(t)

----------------------------------------------------------------------------
(* Characters that normalization treats alike.  An inert character is its own *)
(* decomposition, a starter, and takes part in no composition: the forms are  *)
(* equivariant in it, so one representative decides an interval of them.      *)
IsJamoLVT(c) == IsL(c) \/ IsV(c) \/ IsT(c)
Inert(c) == /\ ~HasAny(c) /\ Starter(c) /\ ~IsJamoLVT(c)
            /\ c \notin Firsts /\ c \notin Seconds
(* blocks of 256 code points all of whose members are inert *)
ActiveBlocks ==
  {b \in 0 .. 4351 : \E j \in 1 .. 256 : Decomp.s2[Decomp.s1[b + 1]][j] # 0}
  \cup {c \div 256 : c \in Firsts \cup Seconds}
  \cup (LBase \div 256) .. ((TBase + TCount) \div 256)
  \cup (SBase \div 256) .. ((SBase + SCount) \div 256)
  \cup UNION {(Atoms.lo[a] \div 256) .. ((IF a < NAtoms THEN Atoms.lo[a + 1] - 1 ELSE MaxCP) \div 256) :
               a \in {x \in 1 .. NAtoms : Atoms.vecs[Atoms.vi[x]].ccc # 0}}

(* A starter before which text can be cut: it never composes with its predecessor. *)
NeverSecond(c) == Starter(c) /\ c \notin Seconds /\ ~IsV(c) /\ ~IsT(c)
CutBefore(f, c) == LET d == IF f \in {"nfd", "nfc"} THEN FullCan(c) ELSE FullCom(c) IN NeverSecond(d[1])
=============================================================================
