------------------------------ MODULE HelperText ------------------------------
(* The Rust text printed by gen-{blk,sc}-{enum,name}.py, compiled: the enumeration  *)
(* and the name function have every property value alias exactly once.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Rows == JsonDeserialize(IOEnv.VTRACE).rows
Ref == JsonDeserialize(IOEnv.VDATA \o "/aliases.json")
N == Len(Rows)
VARIABLE k
Init == k = 1
Next == k < N /\ k' = k + 1
Spec == Init /\ [][Next]_k
RefRows(e) == {Ref[e][j] : j \in 1 .. Len(Ref[e])}
Conforms ==
  LET r == Rows[k] IN
  \/ \E x \in RefRows(r.enum) : x.ident = r.ident /\ x.full = r.full /\ x.abbr = r.abbr
  \/ /\ PrintT("MISMATCH " \o ToJson([printed |-> r, expected |-> {x \in RefRows(r.enum) : x.ident = r.ident \/ x.abbr = r.abbr}]))
     /\ FALSE
Complete == k = 1 =>
  \A e \in {"Blk", "Sc"} :
    LET got == {Rows[j].ident : j \in {i \in 1 .. N : Rows[i].enum = e}} want == {x.ident : x \in RefRows(e)} IN
    \/ got = want
    \/ /\ PrintT("MISMATCH " \o ToJson([enum |-> e, missing |-> want \ got, extra |-> got \ want]))
       /\ FALSE
===============================================================================
