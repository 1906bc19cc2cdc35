---------------------------- MODULE GraphemeCases ----------------------------
(* The generated grapheme break test cases (source, cluster lengths) are the  *)
(* official ones, and both agree with the rules of Graphemes.                 *)
EXTENDS Graphemes
Cases == JsonDeserialize(IOEnv.VTRACE).texts
Official == JsonDeserialize(DataDir \o "/gbtest.json")
N == Len(Official)
VARIABLE k
Chunk == 64
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
SpecAgrees == LET o == Official[k] IN o[2] = ClusterLengths([j \in 1 .. Len(o[1]) |-> ClassOf(o[1][j])])
Conforms == (Len(Cases) = N /\ Cases[k] = Official[k])
  \/ /\ PrintT("MISMATCH " \o ToJson([case |-> k, official |-> Official[k], generated |-> IF k <= Len(Cases) THEN Cases[k] ELSE <<>>,
                 generated_cases |-> Len(Cases), official_cases |-> N]))
     /\ FALSE
=============================================================================
