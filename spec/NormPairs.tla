------------------------------- MODULE NormPairs -------------------------------
(* Canonically equivalent texts (reached by NormEquiv) have equal forms.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
VARIABLE k
Chunk == 128
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
Conforms ==
  \/ Texts[k].fs = Texts[k].ft
  \/ /\ PrintT("MISMATCH " \o ToJson([law |-> "canonically equivalent texts have the same forms", record |-> Texts[k]]))
     /\ FALSE
=============================================================================
