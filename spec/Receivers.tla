------------------------------ MODULE Receivers ------------------------------
(* Totality and agreement of the two receivers over the code space, on the      *)
(* library's answers alone.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Obs == JsonDeserialize(IOEnv.VTRACE)       \* every enumeration and boolean query
Agree == JsonDeserialize(IOEnv.VTRACE2)    \* na, dm, conversion: status only
NRuns == Len(Obs.lo)
NCols == Len(Obs.cols)
VARIABLES part, k
Len_(p) == IF p = "sweep" THEN NRuns ELSE Len(Agree.rows)
Chunk == 256
Init == part \in {"sweep", "agree"} /\ k \in {j \in 1 .. Len_(part) : j % Chunk = 1}
Next == k < Len_(part) /\ (k + 1) % Chunk # 1 /\ k' = k + 1 /\ part' = part
Spec == Init /\ [][Next]_<<part, k>>

Surrogate(lo, hi) == 55296 <= lo /\ hi <= 57343
RunEnd == IF k < NRuns THEN Obs.lo[k + 1] - 1 ELSE 1114111
Row == Obs.vecs[Obs.vi[k]]
Fails(v) == v \in {"PANIC", "REJECTED", "OTHER"}
BadCols == {c \in 1 .. NCols : \/ Fails(Row[c])
                               \/ Row[NCols + c] # IF Surrogate(Obs.lo[k], RunEnd) THEN "-" ELSE Row[c]}
A == Agree.rows[k]
AgreeOk == /\ A[1] = IF k = 1 THEN 0 ELSE Agree.rows[k - 1][2] + 1
           /\ k = Len(Agree.rows) => A[2] = 1114111
           /\ \A i \in 1 .. 3 : A[3][i] = IF Surrogate(A[1], A[2]) THEN "surrogate" ELSE "same"
Conforms ==
  IF part = "sweep"
  THEN \/ BadCols = {}
       \/ LET c == CHOOSE c \in BadCols : TRUE
          IN /\ PrintT("MISMATCH " \o ToJson([lo |-> Obs.lo[k], hi |-> RunEnd, query |-> Obs.cols[c], code_point |-> Row[c], char |-> Row[NCols + c]]))
             /\ FALSE
  ELSE \/ AgreeOk
       \/ /\ PrintT("MISMATCH " \o ToJson([queries |-> <<"na", "dm", "to_code_point">>, row |-> A]))
          /\ FALSE
ASSUME Obs.lo[1] = 0 /\ \A j \in 2 .. NRuns : Obs.lo[j - 1] < Obs.lo[j]
=============================================================================
