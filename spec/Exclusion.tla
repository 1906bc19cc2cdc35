------------------------------ MODULE Exclusion ------------------------------
(***************************************************************************)
(* Full_Composition_Exclusion over the code space, and its consequences on *)
(* recorded outputs.  VTRACE: sweep of ce and comp_ex; VTRACE2: texts with *)
(* their four forms <<text, nfd, nfc, nfkd, nfkc>>.                        *)
(***************************************************************************)
EXTENDS Norm
Obs == JsonDeserialize(IOEnv.VTRACE)
Rec == JsonDeserialize(IOEnv.VTRACE2)
NRuns == Len(Obs.lo)
Texts == Rec.texts
NT == Len(Texts)

(* reader of the sweep: one step per decomposable character, plus the gap after it *)
RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)
Seen(c) == Obs.vecs[Obs.vi[FindIn(Obs.lo, c, 1, NRuns)]]
B(x) == IF x THEN "T" ELSE "F"
Row(c) == <<B(Base(c).ce), B(CompEx(c)), IF IsScalar(c) THEN B(Base(c).ce) ELSE "-", IF IsScalar(c) THEN B(CompEx(c)) ELSE "-">>
(* runs starting in lo..hi, plus the one containing lo *)
RunsIn(lo, hi) == FindIn(Obs.lo, lo, 1, NRuns) .. FindIn(Obs.lo, hi, 1, NRuns)
GapOk(lo, hi) == lo > hi \/ \A r \in RunsIn(lo, hi) :
   LET v == Obs.vecs[Obs.vi[r]]
       a == IF Obs.lo[r] < lo THEN lo ELSE Obs.lo[r]
       z == IF r = NRuns THEN hi ELSE IF Obs.lo[r + 1] - 1 > hi THEN hi ELSE Obs.lo[r + 1] - 1
   IN /\ v[1] = "F" /\ v[2] = "F"
      /\ (v[3] = "F" /\ v[4] = "F") \/ (v[3] = "-" /\ v[4] = "-" /\ 55296 <= a /\ z <= 57343)
NDM == Len(DM)
StepOk(i) == /\ i > 0 => Seen(DM[i].cp) = Row(DM[i].cp)
             /\ GapOk(IF i = 0 THEN 0 ELSE DM[i].cp + 1, IF i = NDM THEN MaxCP ELSE DM[i + 1].cp - 1)

VARIABLES part, k
Chunk == 128
Init == \/ part = "sweep" /\ k \in {j \in 0 .. NDM : j % Chunk = 0}
        \/ part = "texts" /\ k \in {1} \cup {j \in 1 .. NT : j % Chunk = 0}
Next == /\ (k + 1) % Chunk # 0 /\ k < (IF part = "sweep" THEN NDM ELSE NT)
        /\ k' = k + 1 /\ part' = part
Spec == Init /\ [][Next]_<<part, k>>

NoneIn(s, test(_)) == \A i \in 1 .. Len(s) : s[i] # -1 /\ ~test(s[i])
(* a text that is the canonical mapping of a primary composite composes to it *)
Recomposes(t) == (Len(t[1]) = 2 /\ Composite(t[1][1], t[1][2]) # NoComposite)
                   => t[3] = NFC(<<Composite(t[1][1], t[1][2])>>)
TextOk(t) == /\ NoneIn(t[2], HasCan) /\ NoneIn(t[4], HasAny)
             /\ NoneIn(t[3], CompEx) /\ NoneIn(t[5], CompEx)
             /\ Compose(t[3]) = t[3] /\ Compose(t[5]) = t[5]  (* no primary composite is left apart *)
             /\ Recomposes(t)
Ok == IF part = "sweep" THEN StepOk(k) ELSE TextOk(Texts[k])
Conforms == Ok
  \/ /\ IF part = "sweep"
        THEN PrintT("MISMATCH " \o ToJson([decomposable |-> IF k = 0 THEN -1 ELSE DM[k].cp,
                     expected_ce_compex |-> IF k = 0 THEN <<>> ELSE Row(DM[k].cp), recorded |-> IF k = 0 THEN <<>> ELSE Seen(DM[k].cp),
                     following_gap_ok |-> GapOk(IF k = 0 THEN 0 ELSE DM[k].cp + 1, IF k = NDM THEN MaxCP ELSE DM[k + 1].cp - 1)]))
        ELSE PrintT("MISMATCH " \o ToJson([law |-> "exclusions never appear in NFC/NFKC, decomposables never in NFD/NFKD, primary composites recompose",
                     record |-> Texts[k]]))
     /\ FALSE
=============================================================================
