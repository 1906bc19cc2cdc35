--------------------------- MODULE GraphemeMachine ---------------------------
(***************************************************************************)
(* The automaton over the classes of Unicode 15.1: TLC checks its decisions *)
(* against the rules and exports it so that the harness can replay it, in  *)
(* lockstep, against the real iterator.                                    *)
(***************************************************************************)
EXTENDS Graphemes, GraphemeAutomaton

RECURSIVE Closure(_, _)
Closure(seen, new) ==
  IF new = {} THEN seen
  ELSE LET nxt == {Feed(q, c) : q \in new, c \in ClassSet} \ (seen \cup new)
       IN Closure(seen \cup new, nxt)
MachineStates == Closure({}, {Start})
=============================================================================
