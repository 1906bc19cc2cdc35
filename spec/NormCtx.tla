------------------------------- MODULE NormCtx -------------------------------
(***************************************************************************)
(* Trace validation of normalization for EVERY scalar value in a set of    *)
(* contexts.  A context is a template, a sequence in which -1 stands for   *)
(* the character; the trace gives, per context and run of code points, the *)
(* recorded output with the character again abstracted to -1.              *)
(***************************************************************************)
EXTENDS Norm
Trace == JsonDeserialize(IOEnv.VTRACE)
Form == Trace.form
Ctx == Trace.contexts           \* [template, lo, out]
NC == Len(Ctx)

VARIABLES ctx, pos, run
vars == <<ctx, pos, run>>

RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)

Chunk == 2048
Starts == {k * Chunk : k \in 0 .. (MaxCP \div Chunk)}
Init == /\ ctx \in 1 .. NC
        /\ pos \in Starts
        /\ run = FindIn(Ctx[ctx].lo, pos, 1, Len(Ctx[ctx].lo))
RunEnd == IF run < Len(Ctx[ctx].lo) THEN Ctx[ctx].lo[run + 1] ELSE MaxCP + 1
Block == pos \div 256
(* inert blocks are taken whole (one representative), others one character at a time *)
End == IF Block \in ActiveBlocks THEN pos + 1
       ELSE IF RunEnd < (Block + 1) * 256 THEN RunEnd ELSE (Block + 1) * 256
Next == /\ End % Chunk # 0
        /\ pos' = End
        /\ run' = IF RunEnd = End THEN run + 1 ELSE run
        /\ ctx' = ctx
Spec == Init /\ [][Next]_vars

Fill(t, c) == [j \in 1 .. Len(t) |-> IF t[j] = -1 THEN c ELSE t[j]]
Recorded == Ctx[ctx].out[run]
Expected == IF IsScalar(pos) THEN NF(Form, Fill(Ctx[ctx].template, pos)) ELSE <<>>
Conforms ==
  \/ Fill(Recorded, pos) = Expected
  \/ /\ PrintT("MISMATCH " \o ToJson([form |-> Form, text |-> Fill(Ctx[ctx].template, pos),
                   recorded |-> Fill(Recorded, pos), expected |-> Expected, last |-> End - 1]))
     /\ FALSE
=============================================================================
