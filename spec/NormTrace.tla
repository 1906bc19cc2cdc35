------------------------------ MODULE NormTrace ------------------------------
(* Validates recorded normalizations: Texts[k] = <<input, output per form>>.   *)
EXTENDS Norm
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
FormsSeen == Trace.forms
N == Len(Texts)
VARIABLE k
Chunk == 128
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
BadForms == {f \in 1 .. Len(FormsSeen) : Texts[k][f + 1] # NF(FormsSeen[f], Texts[k][1])}
Conforms ==
  \/ BadForms = {}
  \/ LET f == CHOOSE f \in BadForms : TRUE
     IN /\ PrintT("MISMATCH " \o ToJson([form |-> FormsSeen[f], text |-> Texts[k][1],
                     recorded |-> Texts[k][f + 1], expected |-> NF(FormsSeen[f], Texts[k][1])]))
        /\ FALSE
=============================================================================
