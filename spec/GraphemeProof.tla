---------------------------- MODULE GraphemeProof ----------------------------
(***************************************************************************)
(* For texts of EVERY length: the automaton decides exactly as the UAX #29 *)
(* rules say.  (GraphemeMC checks the same with TLC for short texts over   *)
(* the classes of 15.1, and that those classes are a GoodAlphabet.)        *)
(* Proved with TLAPS: tlapm GraphemeProof.tla                              *)
(***************************************************************************)
EXTENDS GraphemeAutomaton, TLAPS

CONSTANT Alphabet
ASSUME Good == GoodAlphabet(Alphabet)

VARIABLES text,    \* the characters read
          q,       \* the automaton's summary
          breaks,  \* the positions n at which it reported a boundary before text[n+1]
          run      \* history: where the sequence of RI that ends here begins
vars == <<text, q, breaks, run>>

Init == text = <<>> /\ q = Start /\ breaks = {} /\ run = 0
Read(c) == /\ text' = Append(text, c)
           /\ q' = Feed(q, c)
           /\ breaks' = IF BreaksBefore(q, c) THEN breaks \cup {Len(text)} ELSE breaks
           /\ run' = IF q.last.g = "RI" /\ text # <<>> THEN run ELSE Len(text) + 1
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the summary says about the text *)
Base(s) == \E j \in 1 .. Len(s) : s[j].p /\ \A k \in (j + 1) .. Len(s) : s[k].g = "EX"
Zwj(s)  == /\ Len(s) > 0 /\ s[Len(s)].g = "ZWJ"
           /\ \E j \in 1 .. (Len(s) - 1) : s[j].p /\ \A k \in (j + 1) .. (Len(s) - 1) : s[k].g = "EX"
Joined(s) == \E j \in 1 .. Len(s) : /\ s[j].i = "Consonant"
                                    /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
Linked(s) == \E j \in 1 .. Len(s) : /\ s[j].i = "Consonant"
                                    /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
                                    /\ \E k \in (j + 1) .. Len(s) : s[k].i = "Linker"

TypeOK == /\ text \in Seq(Alphabet)
          /\ breaks \subseteq Nat
          /\ run \in Nat
          /\ q \in [last : Alphabet \cup {NoChar}, pict : {"no", "base", "zwj"}, indic : {"no", "cons", "link"}, odd : BOOLEAN]
LastOK == IF text = <<>> THEN q = Start ELSE q.last = text[Len(text)]
PictOK == /\ q.pict = "base" <=> Base(text)
          /\ q.pict = "zwj" <=> Zwj(text)
IndicOK == /\ q.indic # "no" <=> Joined(text)
           /\ q.indic = "link" <=> Linked(text)
RunOK == text # <<>> /\ q.last.g = "RI" =>
            /\ run \in 1 .. Len(text)
            /\ \A k \in run .. Len(text) : text[k].g = "RI"
            /\ run = 1 \/ text[run - 1].g # "RI"
            /\ q.odd <=> (Len(text) - run + 1) % 2 = 1
Decided == \A n \in 1 .. (Len(text) - 1) : n \in breaks <=> BreakAt(text, n)
Past == \A n \in breaks : n < Len(text)
Inv == TypeOK /\ LastOK /\ PictOK /\ IndicOK /\ RunOK /\ Decided /\ Past

----------------------------------------------------------------------------
THEOREM BaseStep == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet
                    PROVE  Base(Append(s, c)) <=> (c.p \/ (Base(s) /\ c.g = "EX"))
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. CASE c.p
  <2>1. t[Len(t)].p /\ \A k \in (Len(t) + 1) .. Len(t) : t[k].g = "EX"
    BY <1>1, <1>2
  <2> QED BY <2>1, <1>1, <1>2 DEF Base
<1>3. CASE ~c.p
  <2>1. ASSUME Base(t) PROVE Base(s) /\ c.g = "EX"
    <3>1. PICK j \in 1 .. Len(t) : t[j].p /\ \A k \in (j + 1) .. Len(t) : t[k].g = "EX"
      BY <2>1 DEF Base
    <3>2. j # Len(s) + 1
      BY <3>1, <1>1, <1>3
    <3>3. j \in 1 .. Len(s) /\ s[j].p
      BY <3>1, <3>2, <1>1
    <3>4. \A k \in (j + 1) .. Len(s) : s[k].g = "EX"
      BY <3>1, <3>3, <1>1
    <3>5. c.g = "EX"
      BY <3>1, <3>3, <1>1
    <3> QED BY <3>3, <3>4, <3>5 DEF Base
  <2>2. ASSUME Base(s), c.g = "EX" PROVE Base(t)
    <3>1. PICK j \in 1 .. Len(s) : s[j].p /\ \A k \in (j + 1) .. Len(s) : s[k].g = "EX"
      BY <2>2 DEF Base
    <3>2. j \in 1 .. Len(t) /\ t[j].p /\ \A k \in (j + 1) .. Len(t) : t[k].g = "EX"
      BY <3>1, <2>2, <1>1
    <3> QED BY <3>2 DEF Base
  <2> QED BY <2>1, <2>2, <1>3
<1> QED BY <1>2, <1>3

THEOREM ZwjStep == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet
                   PROVE  Zwj(Append(s, c)) <=> (c.g = "ZWJ" /\ Base(s))
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. ASSUME Zwj(t) PROVE c.g = "ZWJ" /\ Base(s)
  <2>1. PICK j \in 1 .. (Len(t) - 1) : t[j].p /\ \A k \in (j + 1) .. (Len(t) - 1) : t[k].g = "EX"
    BY <1>2 DEF Zwj
  <2>2. j \in 1 .. Len(s) /\ s[j].p /\ \A k \in (j + 1) .. Len(s) : s[k].g = "EX"
    BY <2>1, <1>1
  <2> QED BY <2>2, <1>1, <1>2 DEF Base, Zwj
<1>3. ASSUME c.g = "ZWJ", Base(s) PROVE Zwj(t)
  <2>1. PICK j \in 1 .. Len(s) : s[j].p /\ \A k \in (j + 1) .. Len(s) : s[k].g = "EX"
    BY <1>3 DEF Base
  <2>2. j \in 1 .. (Len(t) - 1) /\ t[j].p /\ \A k \in (j + 1) .. (Len(t) - 1) : t[k].g = "EX"
    BY <2>1, <1>1
  <2> QED BY <2>2, <1>1, <1>3 DEF Zwj
<1> QED BY <1>2, <1>3

THEOREM JoinedStep == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet
                      PROVE  Joined(Append(s, c)) <=> (c.i = "Consonant" \/ (Joined(s) /\ c.i \in {"Extend", "Linker"}))
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. CASE c.i = "Consonant"
  <2>1. t[Len(t)].i = "Consonant" /\ \A k \in (Len(t) + 1) .. Len(t) : t[k].i \in {"Extend", "Linker"}
    BY <1>1, <1>2
  <2> QED BY <2>1, <1>1, <1>2 DEF Joined
<1>3. CASE c.i # "Consonant"
  <2>1. ASSUME Joined(t) PROVE Joined(s) /\ c.i \in {"Extend", "Linker"}
    <3>1. PICK j \in 1 .. Len(t) : t[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(t) : t[k].i \in {"Extend", "Linker"}
      BY <2>1 DEF Joined
    <3>2. j # Len(s) + 1
      BY <3>1, <1>1, <1>3
    <3>3. j \in 1 .. Len(s) /\ s[j].i = "Consonant"
      BY <3>1, <3>2, <1>1
    <3>4. \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
      BY <3>1, <3>3, <1>1
    <3>5. c.i \in {"Extend", "Linker"}
      BY <3>1, <3>3, <1>1
    <3> QED BY <3>3, <3>4, <3>5 DEF Joined
  <2>2. ASSUME Joined(s), c.i \in {"Extend", "Linker"} PROVE Joined(t)
    <3>1. PICK j \in 1 .. Len(s) : s[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
      BY <2>2 DEF Joined
    <3>2. j \in 1 .. Len(t) /\ t[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(t) : t[k].i \in {"Extend", "Linker"}
      BY <3>1, <2>2, <1>1
    <3> QED BY <3>2 DEF Joined
  <2> QED BY <2>1, <2>2, <1>3
<1> QED BY <1>2, <1>3

THEOREM LinkedStep == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet
                      PROVE  Linked(Append(s, c)) <=> \/ Joined(s) /\ c.i = "Linker"
                                                      \/ Linked(s) /\ c.i = "Extend"
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. ASSUME Linked(t) PROVE (Joined(s) /\ c.i = "Linker") \/ (Linked(s) /\ c.i = "Extend")
  <2>1. PICK j \in 1 .. Len(t) : /\ t[j].i = "Consonant"
                                 /\ \A k \in (j + 1) .. Len(t) : t[k].i \in {"Extend", "Linker"}
                                 /\ \E k \in (j + 1) .. Len(t) : t[k].i = "Linker"
    BY <1>2 DEF Linked
  <2>2. PICK m \in (j + 1) .. Len(t) : t[m].i = "Linker"
    BY <2>1
  <2>3. j \in 1 .. Len(s) /\ s[j].i = "Consonant"
    BY <2>1, <2>2, <1>1
  <2>4. \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
    BY <2>1, <2>3, <1>1
  <2>5. c.i \in {"Extend", "Linker"}
    BY <2>1, <2>3, <1>1
  <2>6. CASE c.i = "Linker"
    BY <2>3, <2>4, <2>6 DEF Joined
  <2>7. CASE c.i = "Extend"
    <3>1. m \in (j + 1) .. Len(s) /\ s[m].i = "Linker"
      BY <2>2, <2>3, <2>7, <1>1
    <3> QED BY <3>1, <2>3, <2>4, <2>7 DEF Linked
  <2> QED BY <2>5, <2>6, <2>7
<1>3. ASSUME Joined(s), c.i = "Linker" PROVE Linked(t)
  <2>1. PICK j \in 1 .. Len(s) : s[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
    BY <1>3 DEF Joined
  <2>2. j \in 1 .. Len(t) /\ t[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(t) : t[k].i \in {"Extend", "Linker"}
    BY <2>1, <1>3, <1>1
  <2>3. Len(t) \in (j + 1) .. Len(t) /\ t[Len(t)].i = "Linker"
    BY <2>1, <1>3, <1>1
  <2> QED BY <2>2, <2>3 DEF Linked
<1>4. ASSUME Linked(s), c.i = "Extend" PROVE Linked(t)
  <2>1. PICK j \in 1 .. Len(s) : /\ s[j].i = "Consonant"
                                 /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
                                 /\ \E k \in (j + 1) .. Len(s) : s[k].i = "Linker"
    BY <1>4 DEF Linked
  <2>2. j \in 1 .. Len(t) /\ t[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(t) : t[k].i \in {"Extend", "Linker"}
    BY <2>1, <1>4, <1>1
  <2>3. \E k \in (j + 1) .. Len(t) : t[k].i = "Linker"
    BY <2>1, <1>1
  <2> QED BY <2>2, <2>3 DEF Linked
<1> QED BY <1>2, <1>3, <1>4

----------------------------------------------------------------------------
(* The two rules that look further back, in terms of the summary *)
THEOREM Rule9c == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet, s # <<>>
                  PROVE  GB9c(Append(s, c), Len(s)) <=> Linked(s) /\ c.i = "Consonant"
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. ASSUME GB9c(t, Len(s)) PROVE Linked(s) /\ c.i = "Consonant"
  <2>1. PICK j \in 1 .. (Len(s) - 1) : /\ t[j].i = "Consonant"
                                       /\ \A k \in (j + 1) .. Len(s) : t[k].i \in {"Extend", "Linker"}
                                       /\ \E k \in (j + 1) .. Len(s) : t[k].i = "Linker"
    BY <1>2 DEF GB9c
  <2>2. j \in 1 .. Len(s) /\ s[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
    BY <2>1, <1>1
  <2>3. \E k \in (j + 1) .. Len(s) : s[k].i = "Linker"
    BY <2>1, <1>1
  <2> QED BY <2>2, <2>3, <1>1, <1>2 DEF Linked, GB9c
<1>3. ASSUME Linked(s), c.i = "Consonant" PROVE GB9c(t, Len(s))
  <2>1. PICK j \in 1 .. Len(s) : /\ s[j].i = "Consonant"
                                 /\ \A k \in (j + 1) .. Len(s) : s[k].i \in {"Extend", "Linker"}
                                 /\ \E k \in (j + 1) .. Len(s) : s[k].i = "Linker"
    BY <1>3 DEF Linked
  <2>2. j \in 1 .. (Len(s) - 1)
    BY <2>1, <1>1
  <2>3. t[j].i = "Consonant" /\ \A k \in (j + 1) .. Len(s) : t[k].i \in {"Extend", "Linker"}
    BY <2>1, <1>1
  <2>4. \E k \in (j + 1) .. Len(s) : t[k].i = "Linker"
    BY <2>1, <1>1
  <2> QED BY <2>2, <2>3, <2>4, <1>1, <1>3 DEF GB9c
<1> QED BY <1>2, <1>3

THEOREM Rule11 == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet, s # <<>>
                  PROVE  GB11(Append(s, c), Len(s)) <=> Zwj(s) /\ c.p
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat /\ Len(s) > 0
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. ASSUME GB11(t, Len(s)) PROVE Zwj(s) /\ c.p
  <2>1. PICK j \in 1 .. (Len(s) - 1) : t[j].p /\ \A k \in (j + 1) .. (Len(s) - 1) : t[k].g = "EX"
    BY <1>2 DEF GB11
  <2>2. s[j].p /\ \A k \in (j + 1) .. (Len(s) - 1) : s[k].g = "EX"
    BY <2>1, <1>1
  <2>3. s[Len(s)].g = "ZWJ" /\ c.p
    BY <1>1, <1>2 DEF GB11
  <2> QED BY <2>2, <2>3, <1>1 DEF Zwj
<1>3. ASSUME Zwj(s), c.p PROVE GB11(t, Len(s))
  <2>1. PICK j \in 1 .. (Len(s) - 1) : s[j].p /\ \A k \in (j + 1) .. (Len(s) - 1) : s[k].g = "EX"
    BY <1>3 DEF Zwj
  <2>2. t[j].p /\ \A k \in (j + 1) .. (Len(s) - 1) : t[k].g = "EX"
    BY <2>1, <1>1
  <2>3. t[Len(s)].g = "ZWJ" /\ t[Len(s) + 1].p
    BY <1>1, <1>3 DEF Zwj
  <2> QED BY <2>2, <2>3, <1>1 DEF GB11
<1> QED BY <1>2, <1>3

THEOREM Rule12 == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet, s # <<>>,
                         NEW r \in 1 .. Len(s),
                         \A k \in r .. Len(s) : s[k].g = "RI",
                         r = 1 \/ s[r - 1].g # "RI"
                  PROVE  GB12_13(Append(s, c), Len(s)) <=> c.g = "RI" /\ (Len(s) - r + 1) % 2 = 1
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(t) = Len(s) + 1 /\ Len(s) \in Nat /\ Len(s) > 0
      /\ \A k \in 1 .. Len(s) : t[k] = s[k]
      /\ t[Len(s) + 1] = c
  OBVIOUS
<1>2. ASSUME GB12_13(t, Len(s)) PROVE c.g = "RI" /\ (Len(s) - r + 1) % 2 = 1
  <2>1. PICK j \in 1 .. Len(s) : /\ \A k \in j .. Len(s) : t[k].g = "RI"
                                 /\ j = 1 \/ t[j - 1].g # "RI"
                                 /\ (Len(s) - j + 1) % 2 = 1
    BY <1>2 DEF GB12_13
  <2>2. \A k \in j .. Len(s) : s[k].g = "RI"
    BY <2>1, <1>1
  <2>3. j = 1 \/ s[j - 1].g # "RI"
    <3>1. CASE j = 1
      BY <3>1
    <3>2. CASE j # 1
      <4>1. j - 1 \in 1 .. Len(s)
        BY <3>2, <1>1
      <4> QED BY <4>1, <3>2, <2>1, <1>1
    <3> QED BY <3>1, <3>2
  <2>4. ~(j < r)
    <3> SUFFICES ASSUME j < r PROVE FALSE
      OBVIOUS
    <3>1. r - 1 \in j .. Len(s) /\ r # 1
      BY <1>1
    <3> QED BY <3>1, <2>2
  <2>5. ~(r < j)
    <3> SUFFICES ASSUME r < j PROVE FALSE
      OBVIOUS
    <3>1. j - 1 \in r .. Len(s) /\ j # 1
      BY <1>1
    <3> QED BY <3>1, <2>3
  <2>6. j = r
    BY <2>4, <2>5, <1>1
  <2> QED BY <2>1, <2>6, <1>1, <1>2 DEF GB12_13
<1>3. ASSUME c.g = "RI", (Len(s) - r + 1) % 2 = 1 PROVE GB12_13(t, Len(s))
  <2>1. \A k \in r .. Len(s) : t[k].g = "RI"
    BY <1>1
  <2>2. r = 1 \/ t[r - 1].g # "RI"
    <3>1. CASE r = 1
      BY <3>1
    <3>2. CASE r # 1
      <4>1. r - 1 \in 1 .. Len(s)
        BY <3>2, <1>1
      <4> QED BY <4>1, <3>2, <1>1
    <3> QED BY <3>1, <3>2
  <2>3. t[Len(s)].g = "RI" /\ t[Len(s) + 1].g = "RI"
    BY <1>1, <1>3
  <2> QED BY <2>1, <2>2, <2>3, <1>3 DEF GB12_13
<1> QED BY <1>2, <1>3

(* Later characters change nothing: a decision looks at what is before and one character ahead *)
THEOREM Stable == ASSUME NEW s \in Seq(Alphabet), NEW c \in Alphabet, NEW n \in 1 .. (Len(s) - 1)
                  PROVE  BreakAt(Append(s, c), n) <=> BreakAt(s, n)
<1> DEFINE t == Append(s, c)
<1>1. /\ Len(s) \in Nat /\ n \in Nat
      /\ \A k \in 1 .. (n + 1) : t[k] = s[k]
  OBVIOUS
<1>2. t[n] = s[n] /\ t[n + 1] = s[n + 1]
  BY <1>1
<1>3. GB9c(t, n) <=> GB9c(s, n)
  <2>1. \A j \in 1 .. (n - 1) : /\ t[j] = s[j]
                                /\ \A k \in (j + 1) .. n : t[k] = s[k]
    BY <1>1
  <2> QED BY <2>1, <1>2 DEF GB9c
<1>4. GB11(t, n) <=> GB11(s, n)
  <2>1. \A j \in 1 .. (n - 1) : /\ t[j] = s[j]
                                /\ \A k \in (j + 1) .. (n - 1) : t[k] = s[k]
    BY <1>1
  <2> QED BY <2>1, <1>2 DEF GB11
<1>5. GB12_13(t, n) <=> GB12_13(s, n)
  <2>1. \A j \in 1 .. n : /\ \A k \in j .. n : t[k] = s[k]
                          /\ j # 1 => t[j - 1] = s[j - 1]
    <3> TAKE j \in 1 .. n
    <3>1. \A k \in j .. n : t[k] = s[k]
      BY <1>1
    <3>2. ASSUME j # 1 PROVE t[j - 1] = s[j - 1]
      <4>1. j - 1 \in 1 .. (n + 1)
        BY <3>2
      <4> QED BY <4>1, <1>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <1>2 DEF GB12_13
<1> QED BY <1>2, <1>3, <1>4, <1>5 DEF BreakAt, GB3, GB4, GB5, GB6, GB7, GB8, GB9, GB9a, GB9b

----------------------------------------------------------------------------
THEOREM InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. TypeOK
  BY DEF Init, TypeOK, Start
<1>2. LastOK /\ Past /\ Decided /\ RunOK
  BY DEF Init, LastOK, Past, Decided, RunOK
<1>3. PictOK /\ IndicOK
  BY DEF Init, PictOK, IndicOK, Base, Zwj, Joined, Linked, Start
<1> QED BY <1>1, <1>2, <1>3 DEF Inv

THEOREM NextDecision ==
  ASSUME Inv, NEW c \in Alphabet, text # <<>>
  PROVE  BreaksBefore(q, c) <=> BreakAt(Append(text, c), Len(text))
<1> DEFINE t == Append(text, c)
           n == Len(text)
<1> USE DEF Inv, TypeOK
<1>1. /\ text \in Seq(Alphabet) /\ n \in Nat /\ n > 0
      /\ t[n] = text[n] /\ t[n + 1] = c /\ text[n] \in Alphabet
  OBVIOUS
<1>2. q.last = t[n] /\ q # Start
  BY <1>1, Good DEF LastOK, GoodAlphabet, Start
<1>3. GB9c(t, n) <=> q.indic = "link" /\ c.i = "Consonant"
  BY Rule9c DEF IndicOK
<1>4. GB11(t, n) <=> q.pict = "zwj" /\ c.p
  BY Rule11 DEF PictOK
<1>5. GB12_13(t, n) <=> q.last.g = "RI" /\ q.odd /\ c.g = "RI"
  <2>1. CASE q.last.g = "RI"
    <3>1. /\ run \in 1 .. n
          /\ \A k \in run .. n : text[k].g = "RI"
          /\ run = 1 \/ text[run - 1].g # "RI"
          /\ q.odd <=> (n - run + 1) % 2 = 1
      BY <2>1 DEF RunOK
    <3>2. GB12_13(t, n) <=> c.g = "RI" /\ (n - run + 1) % 2 = 1
      BY <3>1, <1>1, Rule12
    <3> QED BY <3>1, <3>2, <2>1
  <2>2. CASE q.last.g # "RI"
    BY <2>2, <1>2 DEF GB12_13
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF BreakAt, BreaksBefore, GB3, GB4, GB5, GB6, GB7, GB8, GB9, GB9a, GB9b

THEOREM NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv, TypeOK, LastOK, PictOK, IndicOK, RunOK, Decided, Past
<1>2. CASE Next
  <2>1. PICK c \in Alphabet : Read(c)
    BY <1>2 DEF Next
  <2> USE DEF Inv
  <2>2. /\ text \in Seq(Alphabet) /\ text' = Append(text, c) /\ text' \in Seq(Alphabet)
        /\ Len(text) \in Nat /\ Len(text') = Len(text) + 1 /\ text' # <<>>
        /\ text'[Len(text')] = c /\ \A k \in 1 .. Len(text) : text'[k] = text[k]
    BY <2>1 DEF Read, TypeOK
  <2>3. q' = Feed(q, c) /\ q'.last = c /\ c \in [g : STRING, i : STRING, p : BOOLEAN]
    BY <2>1, Good DEF Read, Feed, GoodAlphabet
  <2>4. TypeOK'
    <3>1. q' \in [last : Alphabet \cup {NoChar}, pict : {"no", "base", "zwj"}, indic : {"no", "cons", "link"}, odd : BOOLEAN]
      BY <2>3 DEF Feed, TypeOK
    <3>2. breaks' \subseteq Nat /\ run' \in Nat
      BY <2>1, <2>2 DEF Read, TypeOK
    <3> QED BY <2>2, <3>1, <3>2 DEF TypeOK
  <2>5. LastOK'
    BY <2>2, <2>3 DEF LastOK
  <2>6. PictOK'
    <3>1. Base(text') <=> (c.p \/ (Base(text) /\ c.g = "EX"))
      BY <2>2, BaseStep
    <3>2. Zwj(text') <=> (c.g = "ZWJ" /\ Base(text))
      BY <2>2, ZwjStep
    <3>3. c.p => c.g = "XX"
      BY Good DEF GoodAlphabet
    <3> QED BY <2>3, <3>1, <3>2, <3>3 DEF PictOK, Feed
  <2>7. IndicOK'
    <3>1. Joined(text') <=> (c.i = "Consonant" \/ (Joined(text) /\ c.i \in {"Extend", "Linker"}))
      BY <2>2, JoinedStep
    <3>2. Linked(text') <=> \/ Joined(text) /\ c.i = "Linker"
                            \/ Linked(text) /\ c.i = "Extend"
      BY <2>2, LinkedStep
    <3> QED BY <2>3, <3>1, <3>2 DEF IndicOK, Feed, TypeOK
  <2>8. RunOK'
    <3> SUFFICES ASSUME c.g = "RI"
                 PROVE  /\ run' \in 1 .. Len(text')
                        /\ \A k \in run' .. Len(text') : text'[k].g = "RI"
                        /\ run' = 1 \/ text'[run' - 1].g # "RI"
                        /\ q'.odd <=> (Len(text') - run' + 1) % 2 = 1
      BY <2>3 DEF RunOK
    <3>1. CASE text # <<>> /\ q.last.g = "RI"
      <4>1. run' = run /\ q'.odd = ~q.odd
        BY <2>1, <2>3, <3>1 DEF Read, Feed, TypeOK
      <4>2. /\ run \in 1 .. Len(text)
            /\ \A k \in run .. Len(text) : text[k].g = "RI"
            /\ run = 1 \/ text[run - 1].g # "RI"
            /\ q.odd <=> (Len(text) - run + 1) % 2 = 1
        BY <3>1 DEF RunOK
      <4>3. \A k \in run .. Len(text') : text'[k].g = "RI"
        BY <4>2, <2>2
      <4>4. run = 1 \/ text'[run - 1].g # "RI"
        <5>1. CASE run # 1
          <6>1. run - 1 \in 1 .. Len(text)
            BY <5>1, <4>2, <2>2
          <6> QED BY <6>1, <5>1, <4>2, <2>2
        <5> QED BY <5>1
      <4>5. (Len(text') - run + 1) % 2 = 1 <=> ~((Len(text) - run + 1) % 2 = 1)
        BY <4>2, <2>2
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <4>5, <2>2
    <3>2. CASE ~(text # <<>> /\ q.last.g = "RI")
      <4>1. run' = Len(text) + 1
        BY <2>1, <3>2 DEF Read
      <4>2. q'.odd
        <5>1. q.last.g = "RI" => text # <<>>
          BY DEF LastOK, Start, NoChar, Class
        <5> QED BY <5>1, <2>3, <3>2 DEF Feed
      <4>3. run' = 1 \/ text'[run' - 1].g # "RI"
        <5>1. CASE text = <<>>
          BY <5>1, <4>1
        <5>2. CASE text # <<>>
          <6>1. Len(text) \in 1 .. Len(text) /\ q.last = text[Len(text)]
            BY <5>2, <2>2 DEF LastOK
          <6> QED BY <6>1, <5>2, <3>2, <4>1, <2>2
        <5> QED BY <5>1, <5>2
      <4>4. (Len(text') - run' + 1) % 2 = 1
        BY <4>1, <2>2
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <2>2
    <3> QED BY <3>1, <3>2
  <2>9. Decided'
    <3> SUFFICES ASSUME NEW n \in 1 .. (Len(text') - 1)
                 PROVE  n \in breaks' <=> BreakAt(text', n)
      BY DEF Decided
    <3>1. CASE n = Len(text)
      <4>1. n \notin breaks /\ text # <<>>
        BY <3>1, <2>2 DEF Past
      <4>2. n \in breaks' <=> BreaksBefore(q, c)
        BY <4>1, <3>1, <2>1 DEF Read
      <4> QED BY <4>1, <4>2, <3>1, <2>2, NextDecision
    <3>2. CASE n # Len(text)
      <4>1. n \in 1 .. (Len(text) - 1)
        BY <3>2, <2>2
      <4>2. n \in breaks' <=> n \in breaks
        BY <3>2, <2>1 DEF Read
      <4>3. BreakAt(text', n) <=> BreakAt(text, n)
        BY <4>1, <2>2, Stable
      <4> QED BY <4>1, <4>2, <4>3 DEF Decided
    <3> QED BY <3>1, <3>2
  <2>10. Past'
    BY <2>1, <2>2 DEF Past, Read, TypeOK
  <2> QED BY <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10
<1> QED BY <1>1, <1>2

THEOREM MachineIsUAX29 == Spec => []Decided
<1>1. Spec => []Inv
  BY InitInv, NextInv, PTL DEF Spec
<1>2. Inv => Decided
  BY DEF Inv
<1> QED BY <1>1, <1>2, PTL

(* Once there is a boundary, nothing before it matters: the automaton goes on as if the text began there. *)
THEOREM Restart == ASSUME NEW s \in [last : Alphabet \cup {NoChar}, pict : {"no", "base", "zwj"},
                                     indic : {"no", "cons", "link"}, odd : BOOLEAN],
                          NEW c \in Alphabet, BreaksBefore(s, c),
                          c.i \in {"Extend", "Linker"} => c.g \in {"EX", "ZWJ"},
                          s.indic # "no" => s.last.g \notin Control,
                          s.pict # "no" => s.last.g \notin Control,
                          s.odd => s.last.g = "RI"
                   PROVE  Feed(s, c) = Feed(Start, c)
  BY Good DEF GoodAlphabet, BreaksBefore, Feed, Start, NoChar, Class, Control
=============================================================================
