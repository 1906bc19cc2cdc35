---------------------------- MODULE GraphemeRules ----------------------------
(***************************************************************************)
(* The extended grapheme cluster rules of UAX #29 (Unicode 15.1), declara- *)
(* tively, over any text of character classes.                             *)
(*                                                                         *)
(* The rules see a character only through its class: the triple of its     *)
(* Grapheme_Cluster_Break, Indic_Conjunct_Break and Extended_Pictographic  *)
(* values.  A text is a sequence of classes.  Nothing here depends on the  *)
(* Unicode data; Graphemes adds the classes that exist in 15.1.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Class(gcb, incb, pict) == [g |-> gcb, i |-> incb, p |-> pict]
Control == {"CN", "CR", "LF"}

----------------------------------------------------------------------------
(* The rules.  s is the text; the position n, 0 < n < Len(s), lies between  *)
(* s[n] and s[n+1].  The look-behind conditions quantify over the text.     *)
GB3(s, n)  == s[n].g = "CR" /\ s[n + 1].g = "LF"
GB4(s, n)  == s[n].g \in Control
GB5(s, n)  == s[n + 1].g \in Control
GB6(s, n)  == s[n].g = "L" /\ s[n + 1].g \in {"L", "V", "LV", "LVT"}
GB7(s, n)  == s[n].g \in {"LV", "V"} /\ s[n + 1].g \in {"V", "T"}
GB8(s, n)  == s[n].g \in {"LVT", "T"} /\ s[n + 1].g = "T"
GB9(s, n)  == s[n + 1].g \in {"EX", "ZWJ"}
GB9a(s, n) == s[n + 1].g = "SM"
GB9b(s, n) == s[n].g = "PP"
(* \p{InCB=Consonant} [\p{InCB=Extend}\p{InCB=Linker}]* \p{InCB=Linker}     *)
(*                    [\p{InCB=Extend}\p{InCB=Linker}]*  x  \p{InCB=Consonant} *)
GB9c(s, n) == /\ s[n + 1].i = "Consonant"
              /\ \E j \in 1 .. (n - 1) :
                    /\ s[j].i = "Consonant"
                    /\ \A k \in (j + 1) .. n : s[k].i \in {"Extend", "Linker"}
                    /\ \E k \in (j + 1) .. n : s[k].i = "Linker"
(* \p{Extended_Pictographic} Extend* ZWJ  x  \p{Extended_Pictographic}      *)
GB11(s, n) == /\ s[n + 1].p /\ s[n].g = "ZWJ"
              /\ \E j \in 1 .. (n - 1) : s[j].p /\ \A k \in (j + 1) .. (n - 1) : s[k].g = "EX"
(* an odd number of consecutive Regional_Indicators ends at n               *)
GB12_13(s, n) ==
  /\ s[n].g = "RI" /\ s[n + 1].g = "RI"
  /\ \E j \in 1 .. n : /\ \A k \in j .. n : s[k].g = "RI"
                       /\ (j = 1 \/ s[j - 1].g # "RI")
                       /\ (n - j + 1) % 2 = 1

(* The first rule that applies decides; GB999 breaks everywhere else.       *)
BreakAt(s, n) ==
  IF GB3(s, n) THEN FALSE
  ELSE IF GB4(s, n) \/ GB5(s, n) THEN TRUE
  ELSE ~( \/ GB6(s, n) \/ GB7(s, n) \/ GB8(s, n) \/ GB9(s, n) \/ GB9a(s, n)
          \/ GB9b(s, n) \/ GB9c(s, n) \/ GB11(s, n) \/ GB12_13(s, n))

(* GB1, GB2: the text's ends are boundaries, unless it is empty.            *)
Boundaries(s) == IF s = <<>> THEN {} ELSE {0, Len(s)} \cup {n \in 1 .. (Len(s) - 1) : BreakAt(s, n)}
=============================================================================
