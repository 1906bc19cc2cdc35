-------------------------- MODULE GraphemeAutomaton --------------------------
(***************************************************************************)
(* The grapheme iterator as a state machine: it reads one character at a   *)
(* time, remembers a bounded summary of what it has read and decides at    *)
(* once whether there is a boundary before the new character.              *)
(*                                                                         *)
(* GraphemeProof proves, for texts of every length over every alphabet     *)
(* that satisfies GoodAlphabet, that its decisions are those of the rules. *)
(***************************************************************************)
EXTENDS GraphemeRules

NoChar == Class("sot", "None", FALSE)

(* Summary: last  class of the last character                              *)
(*          pict  "no" | "base" (ExtPict Extend* read) | "zwj" (.. ZWJ)    *)
(*          indic "no" | "cons" (Consonant Extend* read) | "link" (.. with *)
(*                a Linker)                                                *)
(*          odd   an odd number of RI ends here                            *)
Start == [last |-> NoChar, pict |-> "no", indic |-> "no", odd |-> FALSE]

Feed(q, c) ==
  [ last  |-> c,
    pict  |-> IF c.p THEN "base"
              ELSE IF q.pict = "base" /\ c.g = "EX" THEN "base"
              ELSE IF q.pict = "base" /\ c.g = "ZWJ" THEN "zwj"
              ELSE "no",
    indic |-> IF c.i = "Consonant" THEN "cons"
              ELSE IF q.indic # "no" /\ c.i = "Linker" THEN "link"
              ELSE IF q.indic # "no" /\ c.i = "Extend" THEN q.indic
              ELSE "no",
    odd   |-> c.g = "RI" /\ ~(q.last.g = "RI" /\ q.odd) ]

(* Is there a boundary between the text summarised by q and c ? *)
BreaksBefore(q, c) ==
  LET a == q.last.g   b == c.g IN
  IF q = Start THEN TRUE                                      \* GB1
  ELSE IF a = "CR" /\ b = "LF" THEN FALSE                     \* GB3
  ELSE IF a \in Control \/ b \in Control THEN TRUE            \* GB4, GB5
  ELSE ~( \/ a = "L" /\ b \in {"L", "V", "LV", "LVT"}         \* GB6
          \/ a \in {"LV", "V"} /\ b \in {"V", "T"}            \* GB7
          \/ a \in {"LVT", "T"} /\ b = "T"                    \* GB8
          \/ b \in {"EX", "ZWJ", "SM"}                        \* GB9, GB9a
          \/ a = "PP"                                         \* GB9b
          \/ q.indic = "link" /\ c.i = "Consonant"            \* GB9c
          \/ q.pict = "zwj" /\ c.p                            \* GB11
          \/ a = "RI" /\ q.odd /\ b = "RI" )                  \* GB12, GB13

(* What the automaton relies on; the 15.1 classes have it (GraphemeMC).     *)
GoodAlphabet(A) == /\ A \subseteq [g : STRING, i : STRING, p : BOOLEAN]
                   /\ \A c \in A : c.g # NoChar.g /\ (c.p => c.g = "XX")
=============================================================================
