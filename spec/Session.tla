------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The library as a stateless service plus grapheme iterators that own all *)
(* of their state.  A session is one thread's history of calls; refs gives *)
(* the answer of each distinct call made alone, in a process of its own.   *)
(* The only state of the specification is the position of each live        *)
(* iterator: whatever was called before, in any order and beside any other *)
(* thread, an answer is the one given alone.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Refs == Trace.refs
Sessions == Trace.sessions
NS == Len(Sessions)
VARIABLES s,     \* session
          e,     \* events consumed
          its,   \* live iterators: number -> <<reference call, pieces read>>
          ok
vars == <<s, e, its, ok>>
Init == s \in 1 .. NS /\ e = 0 /\ its = << >> /\ ok = TRUE
Ev == Sessions[s][e + 1]
Answer(r) == Refs[r].answer
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
With(f, i, v) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]
Min(a, b) == IF a < b THEN a ELSE b
(* a traversal that panics alone may panic anywhere: its answer is not a sequence of pieces *)
Pieces(i) == Answer(its[i][1])
Read(i) == its[i][2]

CallEv == Ev[1] = "call" /\ its' = its /\ ok' = (Ev[3] = Answer(Ev[2]))
(* the same call again and again: only ever the answer given alone *)
ManyEv == Ev[1] = "many" /\ its' = its /\ ok' = (Ev[3] = <<Answer(Ev[2])>>)
OpenEv == Ev[1] = "open" /\ its' = With(its, Ev[2], <<Ev[3], 0>>) /\ ok' = TRUE
NextEv == /\ Ev[1] = "next"
          /\ LET i == Ev[2] p == Pieces(i) n == Read(i) IN
             /\ ok' = (Ev[3] = IF n < Len(p) THEN <<p[n + 1]>> ELSE << >>)
             /\ its' = With(its, i, <<its[i][1], Min(n + 1, Len(p))>>)
RestEv == /\ Ev[1] = "rest"
          /\ LET i == Ev[2] p == Pieces(i) IN ok' = (Ev[3] = SubSeq(p, Read(i) + 1, Len(p)))
          /\ its' = Without(its, Ev[2])
DropEv == Ev[1] = "drop" /\ its' = Without(its, Ev[2]) /\ ok' = TRUE
Next == /\ e < Len(Sessions[s])
        /\ CallEv \/ ManyEv \/ OpenEv \/ NextEv \/ RestEv \/ DropEv
        /\ e' = e + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
Conforms == ok
  \/ /\ LET z == Sessions[s][e] IN PrintT("MISMATCH " \o ToJson([event |-> z,
            call |-> IF z[1] \in {"call", "many"} THEN Refs[z[2]].call ELSE IF z[2] \in DOMAIN its THEN Refs[its[z[2]][1]].call ELSE "",
            alone |-> IF z[1] \in {"call", "many"} THEN <<Answer(z[2])>> ELSE IF z[2] \in DOMAIN its THEN <<Pieces(z[2])>> ELSE <<>>,
            preceding |-> [i \in 1 .. Min(12, e - 1) |-> LET q == Sessions[s][e - i] IN IF q[1] \in {"call", "many"} THEN <<q[1], Refs[q[2]].call>> ELSE <<q[1], q[2]>>]]))
     /\ FALSE
(* all of every history is consumed *)
Consumed == \/ ENABLED Next \/ e = Len(Sessions[s])
=============================================================================
