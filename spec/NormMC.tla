------------------------------- MODULE NormMC -------------------------------
(***************************************************************************)
(* The normalization process as a nondeterministic rewriting machine, over *)
(* every text up to MaxLen of an alphabet in which every mechanism         *)
(* interacts, checked against the declarative definitions of Norm.         *)
(*   decompose: any character with a mapping is replaced by it, in any     *)
(*              order, interleaved with                                    *)
(*   order:     any adjacent pair of non-starters in the wrong order is    *)
(*              exchanged (this is bubble sort with any schedule);         *)
(*   compose:   once nothing of that applies, the composition pass reads   *)
(*              one character at a time.                                   *)
(* Theorems: confluence (whatever the schedule, the machine ends in NFD /  *)
(* NFKD and then NFC / NFKC), termination, the law table, the              *)
(* concatenation laws, and the agreement of the two statements of          *)
(* canonical ordering.                                                     *)
(***************************************************************************)
EXTENDS Norm
CONSTANTS Alphabet, MaxLen, Compat
VARIABLES input, text, phase, rest
vars == <<input, text, phase, rest>>

Words == UNION {[1 .. n -> Alphabet] : n \in 0 .. MaxLen}
Splice(s, i, n, t) == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i + n, Len(s))
Reducible(c) == IF Compat THEN HasAny(c) ELSE HasCan(c)

Init == /\ input \in Words /\ text = input /\ phase = "rewrite" /\ rest = <<>>
Decomp1 == \E i \in {j \in 1 .. Len(text) : Reducible(text[j])} : text' = Splice(text, i, 1, Mapping(text[i]))
Swap1 == \E i \in 1 .. (Len(text) - 1) :
           /\ CCC(text[i + 1]) # 0 /\ CCC(text[i]) > CCC(text[i + 1])
           \* ordering is only meaningful between fully decomposed characters
           /\ ~Reducible(text[i]) /\ ~Reducible(text[i + 1])
           /\ text' = Splice(text, i, 2, <<text[i + 1], text[i]>>)
Stuck == (InCanonicalOrder(text) /\ \A i \in 1 .. Len(text) : ~Reducible(text[i])) = TRUE
Rewrite == phase = "rewrite" /\ (Decomp1 \/ Swap1) /\ UNCHANGED <<input, phase, rest>>
StartCompose == /\ phase = "rewrite" /\ Stuck
                /\ phase' = "compose" /\ rest' = text /\ text' = <<>> /\ input' = input
(* the composition pass: text is the output so far *)
LastStarter(s) == LET S == {i \in 1 .. Len(s) : CCC(s[i]) = 0} IN IF S = {} THEN 0 ELSE Max(S)
Blocked(s, c) == LET st == LastStarter(s) IN
   st = 0 \/ (st < Len(s) /\ (CCC(s[Len(s)]) = 0 \/ CCC(s[Len(s)]) >= CCC(c)))
Step == /\ phase = "compose" /\ rest # <<>>
        /\ LET c == rest[1]
               st == LastStarter(text)
               p == IF Blocked(text, c) THEN NoComposite ELSE Composite(text[st], c)
           IN text' = IF p = NoComposite THEN Append(text, c) ELSE [text EXCEPT ![st] = p]
        /\ rest' = Tail(rest) /\ UNCHANGED <<input, phase>>
Done == phase = "compose" /\ rest = <<>> /\ phase' = "done" /\ UNCHANGED <<input, text, rest>>
Next == Rewrite \/ StartCompose \/ Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

D(s) == IF Compat THEN NFKD(s) ELSE NFD(s)
C(s) == IF Compat THEN NFKC(s) ELSE NFC(s)
Confluent == /\ (phase = "compose" /\ text = <<>> => rest = D(input))
             /\ (phase = "done" => text = C(input))
Fillers == {f \in {32, 12290, 128512} : Inert(f)}
Laws == (phase = "rewrite" /\ text = input) =>
   LET d == D(input) c == C(input) IN
   /\ D(d) = d /\ C(c) = c /\ D(c) = d /\ C(d) = c
   /\ NFKD(d) = NFKD(input) /\ NFKC(c) = NFKC(input) /\ NFD(NFKC(input)) = NFKD(input)
   /\ LET m == SelectSeq(d, LAMBDA x : CCC(x) # 0) IN OrderByClass(m) = OrderBySort(m)
   /\ \A i \in 0 .. Len(input) :
        LET a == SubSeq(input, 1, i) b == SubSeq(input, i + 1, Len(input)) IN
        /\ D(D(a) \o D(b)) = d /\ C(C(a) \o C(b)) = c
        /\ (b # <<>> /\ CutBefore(IF Compat THEN "nfkc" ELSE "nfc", b[1])) => c = C(a) \o C(b)
   /\ \A i \in 1 .. Len(c) : ~CompEx(c[i])
   \* inert characters pass through: the forms of a padded text are the padded forms
   /\ \A f \in Fillers : /\ D(<<f, f>> \o input \o <<f, f>>) = <<f, f>> \o d \o <<f, f>>
                          /\ C(<<f, f>> \o input \o <<f, f>>) = <<f, f>> \o c \o <<f, f>>
Terminates == <>(phase = "done")
=============================================================================
