------------------------------ MODULE GraphemeMC ------------------------------
(***************************************************************************)
(* Exhaustive check: over every text of at most MaxLen classes, the        *)
(* iterator machine makes exactly the decisions of the UAX #29 rules, and  *)
(* the structural theorems the properties rely on hold.                    *)
(***************************************************************************)
EXTENDS GraphemeMachine
CONSTANT MaxLen

(* The hypotheses of GraphemeProof, which proves these theorems for texts of every *)
(* length, hold of the classes of 15.1 and of the machine's reachable states.      *)
ASSUME GoodAlphabet(ClassSet)
ASSUME \A c \in ClassSet : c.i \in {"Extend", "Linker"} => c.g \in {"EX", "ZWJ"}
ASSUME \A s \in MachineStates : /\ s.indic # "no" \/ s.pict # "no" => s.last.g \notin Control
                               /\ s.odd => s.last.g = "RI"
                               /\ \A c \in ClassSet : BreaksBefore(s, c) => Feed(s, c) = Feed(Start, c)

VARIABLES text,    \* the characters read
          q,       \* the machine's summary
          breaks   \* set of positions n at which it reported a boundary before text[n+1]
vars == <<text, q, breaks>>

Init == text = <<>> /\ q = Start /\ breaks = {}
Read(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c)
           /\ q' = Feed(q, c)
           /\ breaks' = IF BreaksBefore(q, c) THEN breaks \cup {Len(text)} ELSE breaks
Next == \E c \in ClassSet : Read(c)
Spec == Init /\ [][Next]_vars

(* Only the newest decision is new: the others were checked in the prefix. *)
MachineIsUAX29 ==
  LET n == Len(text) - 1 IN
    n > 0 => (n \in breaks <=> BreakAt(text, n))

(* P03, on the design: restarting the machine at a boundary changes no later decision.  *)
RECURSIVE RunFrom(_, _, _)
RunFrom(s, n, st) == IF n > Len(s) THEN {}
                     ELSE (IF BreaksBefore(st, s[n]) THEN {n - 1} ELSE {}) \cup RunFrom(s, n + 1, Feed(st, s[n]))
Restartable == \A b \in breaks : b > 0 =>
                  {x \in breaks : x >= b} = {b + x : x \in RunFrom(SubSeq(text, b + 1, Len(text)), 1, Start)}
(* P02 on the design: boundaries start at 0, so cluster lengths are positive and sum up. *)
Partition == text # <<>> => 0 \in breaks /\ \A b \in breaks : b < Len(text)
=============================================================================
