------------------------------ MODULE NormEquiv ------------------------------
(***************************************************************************)
(* Canonical equivalence as a rewriting machine (UAX #15 1.1): one step    *)
(* replaces a character by its canonical mapping, or a mapping by the      *)
(* character it is the mapping of (excluded characters included), or       *)
(* swaps two adjacent non-starters of different combining class.           *)
(* Every state is canonically equivalent to its seed; the harness replays  *)
(* the reachable pairs into the library, whose forms must not tell them    *)
(* apart (NormPairs).  TLC checks on the way that the specification's own  *)
(* NFD is an invariant of the rewriting (EquivalenceKept).                 *)
(***************************************************************************)
EXTENDS Norm
CONSTANT Depth
SeedFile == JsonDeserialize(IOEnv.VSEEDS)
Seeds == SeedFile.texts

VARIABLES seed, text, steps
vars == <<seed, text, steps>>

Splice(s, i, n, t) == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i + n, Len(s))

CanDM == SelectSeq(DM, LAMBDA d : d.can)
UnmapDom == {d.map : d \in Range(CanDM)}
UnmapFcn == FoldLeft(LAMBDA f, d : [f EXCEPT ![d.map] = @ \cup {d.cp}], [m \in UnmapDom |-> {}], CanDM)
(* all characters whose canonical mapping is exactly t *)
Unmap(t) == (IF t \in UnmapDom THEN UnmapFcn[t] ELSE {})
            \cup (IF Len(t) = 2 /\ ((IsL(t[1]) /\ IsV(t[2])) \/ (IsLV(t[1]) /\ IsT(t[2]))) THEN {Composite(t[1], t[2])} ELSE {})

Init == seed \in 1 .. Len(Seeds) /\ text = Seeds[seed] /\ steps = 0
Expand == \E i \in 1 .. Len(text) : /\ HasCan(text[i])
                                    /\ text' = Splice(text, i, 1, Mapping(text[i]))
Contract == \E i \in 1 .. Len(text) : \E n \in 1 .. 2 :
              /\ i + n - 1 <= Len(text)
              /\ \E c \in Unmap(SubSeq(text, i, i + n - 1)) : text' = Splice(text, i, n, <<c>>)
Swap == \E i \in 1 .. (Len(text) - 1) :
              /\ CCC(text[i]) # 0 /\ CCC(text[i + 1]) # 0 /\ CCC(text[i]) # CCC(text[i + 1])
              /\ text' = Splice(text, i, 2, <<text[i + 1], text[i]>>)
Next == /\ steps < Depth
        /\ Expand \/ Contract \/ Swap
        /\ steps' = steps + 1 /\ seed' = seed
Spec == Init /\ [][Next]_vars
View == <<seed, text>>

EquivalenceKept == NFD(text) = NFD(Seeds[seed])
Emit == steps = 0 \/ PrintT("PAIR " \o ToString(Seeds[seed]) \o "|" \o ToString(text))
=============================================================================
