---------------------------- MODULE GraphemeTrace ----------------------------
(* Validates recorded segmentations (code points, cluster lengths) against the *)
(* declarative rules, one recorded text per step.                              *)
EXTENDS Graphemes
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
VARIABLE k
Chunk == 256
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
Expected(t) == ClusterLengths([j \in 1 .. Len(t.s) |-> ClassOf(t.s[j])])
Conforms == LET t == Texts[k] IN
  \/ t.l = Expected(t)
  \/ /\ PrintT("MISMATCH " \o ToJson([text |-> t.s, recorded |-> t.l, expected |-> Expected(t)]))
     /\ FALSE
=============================================================================
