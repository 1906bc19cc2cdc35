------------------------------- MODULE Aliases -------------------------------
(* PropertyValueAliases 15.1 for every value of every enumeration.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Ref == JsonDeserialize(IOEnv.VDATA \o "/aliases.json")
Rows == Trace.rows
N == Len(Rows)
VARIABLE k
Init == k = 1
Next == k < N /\ k' = k + 1
Spec == Init /\ [][Next]_k
Enums == DOMAIN Ref
RefOf(e, i) == LET S == {j \in 1 .. Len(Ref[e]) : Ref[e][j].ident = i} IN Ref[e][CHOOSE j \in S : TRUE]
Conforms ==
  LET r == Rows[k] x == RefOf(r.enum, r.ident) IN
  \/ r.full = x.full /\ r.abbr = x.abbr
  \/ /\ PrintT("MISMATCH " \o ToJson([recorded |-> r, full |-> x.full, abbr |-> x.abbr]))
     /\ FALSE
(* the recorded names alone identify the value *)
Distinct ==
  LET r == Rows[k] IN
  \/ \A j \in 1 .. (k - 1) : Rows[j].enum = r.enum => (Rows[j].abbr # r.abbr /\ Rows[j].full # r.full)
  \/ /\ PrintT("MISMATCH " \o ToJson([law |-> "distinct values have distinct names", value |-> r]))
     /\ FALSE
Booleans == k = 1 =>
  \/ Trace["true"] = "Y" /\ Trace["false"] = "N"
  \/ /\ PrintT("MISMATCH " \o ToJson([from_true |-> Trace["true"], from_false |-> Trace["false"]]))
     /\ FALSE
(* every value of the reference is recorded once *)
ASSUME \A e \in Enums : {r.ident : r \in {Rows[j] : j \in {i \in 1 .. N : Rows[i].enum = e}}} = {Ref[e][j].ident : j \in 1 .. Len(Ref[e])}
=============================================================================
