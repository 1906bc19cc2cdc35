------------------------------ MODULE NormCases ------------------------------
(***************************************************************************)
(* The generated normalization test cases are the official ones            *)
(* (NormalizationTest 15.1: source, NFC, NFD, NFKC, NFKD), and both agree  *)
(* with the specification's own definitions - so this is also the          *)
(* validation of Norm against the Consortium's conformance data.  Both     *)
(* lists are sorted by source.                                             *)
(***************************************************************************)
EXTENDS Norm
Cases == JsonDeserialize(IOEnv.VTRACE).texts
Official == JsonDeserialize(DataDir \o "/normtest.json")
N == Len(Official)
VARIABLE k
Chunk == 256
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
SpecAgrees == LET o == Official[k] s == o[1] IN o[2] = NFC(s) /\ o[3] = NFD(s) /\ o[4] = NFKC(s) /\ o[5] = NFKD(s)
Conforms == (Len(Cases) = N /\ Cases[k] = Official[k])
  \/ /\ PrintT("MISMATCH " \o ToJson([case |-> k, official |-> Official[k], generated |-> IF k <= Len(Cases) THEN Cases[k] ELSE <<>>,
                 generated_cases |-> Len(Cases), official_cases |-> N]))
     /\ FALSE
=============================================================================
