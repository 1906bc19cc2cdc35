---------------------------- MODULE TwoStageProof ----------------------------
(***************************************************************************)
(* For every size of the code space, every block size that divides it and  *)
(* every function: the table the builder makes gives every flushed         *)
(* character its value, blocks are shared, indexes are in range, and at    *)
(* the end everything is flushed.   tlapm TwoStageProof.tla                *)
(***************************************************************************)
EXTENDS TwoStageBuilder, TLAPS

ASSUME SizeOK == Size \in Nat

TypeOK == /\ bs \in Nat /\ bs > 0 /\ Size % bs = 0
          /\ f \in [0 .. Size - 1 -> Values]
          /\ cp \in Nat /\ cp <= Size
          /\ cur \in Seq(Values) /\ Len(cur) < bs
          /\ stage1 \in Seq(Nat)
          /\ stage2 \in Seq(Seq(Values))
Place == cp = Len(stage1) * bs + Len(cur)
CurOK == \A k \in 1 .. Len(cur) : cur[k] = f[Len(stage1) * bs + k - 1]
BlockOK == \A b \in 1 .. Len(stage1) : /\ stage1[b] + 1 \in 1 .. Len(stage2)
                                       /\ \A k \in 1 .. bs : stage2[stage1[b] + 1][k] = f[(b - 1) * bs + k - 1]
Inv == TypeOK /\ Place /\ CurOK /\ BlockOK /\ Shares

LEMMA Division == ASSUME NEW p \in Nat, NEW d \in Nat, d > 0
                  PROVE  /\ p \div d \in Nat /\ p % d \in 0 .. (d - 1)
                         /\ p = ((p \div d) * d) + (p % d)
  OBVIOUS

LEMMA Quotient == ASSUME NEW a \in Nat, NEW d \in Nat, d > 0, NEW r \in 0 .. (d - 1)
                  PROVE  (a * d + r) \div d = a /\ (a * d + r) % d = r
<1> DEFINE p == (a * d) + r
           e == p \div d
           s == p % d
<1>1. p \in Nat
  <2>1. a * d \in Nat
    OBVIOUS
  <2> QED BY <2>1
<1>2. e \in Nat /\ s \in 0 .. (d - 1) /\ p = (e * d) + s
  BY <1>1, Division
<1> HIDE DEF e, s
<1>3. ~(a < e)
  <2> SUFFICES ASSUME a < e PROVE FALSE
    OBVIOUS
  <2>1. e - a \in Nat /\ e - a >= 1
    BY <1>2
  <2>2. (e - a) * d >= d
    BY <2>1
  <2>3. (e - a) * d = (e * d) - (a * d)
    BY <1>2
  <2> QED BY <2>2, <2>3, <1>2
<1>4. ~(e < a)
  <2> SUFFICES ASSUME e < a PROVE FALSE
    OBVIOUS
  <2>1. a - e \in Nat /\ a - e >= 1
    BY <1>2
  <2>2. (a - e) * d >= d
    BY <2>1
  <2>3. (a - e) * d = (a * d) - (e * d)
    BY <1>2
  <2> QED BY <2>2, <2>3, <1>2
<1>5. e = a
  BY <1>2, <1>3, <1>4
<1>6. s = r
  BY <1>2, <1>5
<1> QED BY <1>5, <1>6 DEF e, s

LEMMA Below == ASSUME NEW p \in Nat, NEW d \in Nat, d > 0, NEW n \in Nat, p < n * d
               PROVE  p \div d < n
<1>1. p \div d \in Nat /\ p % d \in 0 .. (d - 1) /\ p = ((p \div d) * d) + (p % d)
  BY Division
<1> DEFINE e == p \div d
<1>2. e \in Nat /\ e * d <= p
  BY <1>1
<1> HIDE DEF e
<1> SUFFICES ASSUME ~(e < n) PROVE FALSE
  BY DEF e
<1>3. e >= n
  BY <1>2
<1>4. e * d >= n * d
  BY <1>2, <1>3
<1> QED BY <1>2, <1>4

THEOREM InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. bs \in Nat /\ bs > 0 /\ Size % bs = 0
  BY SizeOK DEF Init, Divisors
<1> QED BY <1>1, SizeOK DEF Init, Inv, TypeOK, Place, CurOK, BlockOK, Shares

LEMMA IndexFound == ASSUME NEW b
                    PROVE  \/ IndexOf(b) = Len(stage2) + 1 /\ \A i \in 1 .. Len(stage2) : stage2[i] # b
                           \/ IndexOf(b) \in 1 .. Len(stage2) /\ stage2[IndexOf(b)] = b
<1>1. CASE \E i \in 1 .. Len(stage2) : stage2[i] = b
  BY <1>1 DEF IndexOf
<1>2. CASE ~\E i \in 1 .. Len(stage2) : stage2[i] = b
  BY <1>2 DEF IndexOf
<1> QED BY <1>1, <1>2

THEOREM NextInv == Inv /\ [Add]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Add]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv, TypeOK, Place, CurOK, BlockOK, Shares
<1>2. CASE Add
  <2> USE DEF Inv, TypeOK
  <2> DEFINE b == Append(cur, f[cp])
             n == Len(stage1)
  <2>1. cp < Size /\ f[cp] \in Values /\ cp' = cp + 1 /\ f' = f /\ bs' = bs
    BY <1>2, SizeOK DEF Add
  <2>2. /\ b \in Seq(Values) /\ Len(b) = Len(cur) + 1 /\ n \in Nat /\ Len(cur) \in Nat
        /\ \A k \in 1 .. Len(cur) : b[k] = cur[k]
        /\ b[Len(cur) + 1] = f[cp]
    BY <2>1
  <2>3. \A k \in 1 .. Len(b) : b[k] = f[n * bs + k - 1]
    <3> TAKE k \in 1 .. Len(b)
    <3>1. CASE k <= Len(cur)
      BY <3>1, <2>2 DEF CurOK
    <3>2. CASE k = Len(cur) + 1
      <4>1. n * bs \in Nat
        BY <2>2
      <4>2. cp = n * bs + k - 1
        BY <4>1, <3>2, <2>2 DEF Place
      <4> QED BY <4>2, <3>2, <2>2
    <3> QED BY <3>1, <3>2, <2>2
  <2> HIDE DEF b
  <2>4. CASE Len(b) < bs
    <3>1. cur' = b /\ UNCHANGED <<stage1, stage2>>
      BY <1>2, <2>4 DEF Add, b
    <3>2. TypeOK'
      <4>1. bs' \in Nat /\ bs' > 0 /\ Size % bs' = 0
        BY <2>1
      <4>2. f' \in [0 .. Size - 1 -> Values]
        BY <2>1
      <4>3. cp' \in Nat /\ cp' <= Size
        BY <2>1, SizeOK
      <4>4. cur' \in Seq(Values) /\ Len(cur') < bs'
        BY <3>1, <2>1, <2>2, <2>4
      <4>5. stage1' \in Seq(Nat) /\ stage2' \in Seq(Seq(Values))
        BY <3>1
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <4>5
    <3>3. Place'
      <4>1. n * bs \in Nat
        BY <2>2
      <4> QED BY <4>1, <3>1, <2>1, <2>2 DEF Place
    <3>4. CurOK'
      BY <3>1, <2>1, <2>3 DEF CurOK
    <3>5. BlockOK' /\ Shares'
      BY <3>1, <2>1 DEF BlockOK, Shares
    <3> QED BY <3>2, <3>3, <3>4, <3>5
  <2>5. CASE ~(Len(b) < bs)
    <3>1. /\ cur' = <<>>
          /\ stage1' = Append(stage1, IndexOf(b) - 1)
          /\ stage2' = IF IndexOf(b) > Len(stage2) THEN Append(stage2, b) ELSE stage2
      BY <1>2, <2>5 DEF Add, b
    <3>2. Len(b) = bs
      BY <2>2, <2>5
    <3>3. \/ IndexOf(b) = Len(stage2) + 1 /\ \A i \in 1 .. Len(stage2) : stage2[i] # b
          \/ IndexOf(b) \in 1 .. Len(stage2) /\ stage2[IndexOf(b)] = b
      BY IndexFound
    <3>4. Len(stage2) \in Nat /\ IndexOf(b) - 1 \in Nat
      BY <3>3
    <3>5. /\ stage2' \in Seq(Seq(Values)) /\ Len(stage2') >= Len(stage2) /\ Len(stage2') \in Nat
          /\ \A i \in 1 .. Len(stage2) : stage2'[i] = stage2[i]
          /\ IndexOf(b) \in 1 .. Len(stage2') /\ stage2'[IndexOf(b)] = b
      <4>1. CASE IndexOf(b) > Len(stage2)
        BY <4>1, <3>1, <3>3, <3>4, <2>2
      <4>2. CASE ~(IndexOf(b) > Len(stage2))
        BY <4>2, <3>1, <3>3, <3>4
      <4> QED BY <4>1, <4>2
    <3>6. /\ stage1' \in Seq(Nat) /\ Len(stage1') = n + 1
          /\ \A i \in 1 .. n : stage1'[i] = stage1[i]
          /\ stage1'[n + 1] = IndexOf(b) - 1
      BY <3>1, <3>4, <2>2
    <3>7. TypeOK'
      <4>1. bs' \in Nat /\ bs' > 0 /\ Size % bs' = 0
        BY <2>1
      <4>2. f' \in [0 .. Size - 1 -> Values]
        BY <2>1
      <4>3. cp' \in Nat /\ cp' <= Size
        BY <2>1, SizeOK
      <4>4. cur' \in Seq(Values) /\ Len(cur') < bs'
        BY <3>1, <2>1
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <3>5, <3>6
    <3>8. Place'
      <4>1. n * bs \in Nat /\ (n + 1) * bs = n * bs + bs
        BY <2>2
      <4> QED BY <4>1, <3>1, <3>2, <3>6, <2>1, <2>2 DEF Place
    <3>9. CurOK'
      BY <3>1 DEF CurOK
    <3>10. BlockOK'
      <4> SUFFICES ASSUME NEW i \in 1 .. (n + 1)
                   PROVE  /\ stage1'[i] + 1 \in 1 .. Len(stage2')
                          /\ \A k \in 1 .. bs : stage2'[stage1'[i] + 1][k] = f[(i - 1) * bs + k - 1]
        BY <3>6, <2>1 DEF BlockOK
      <4>1. CASE i \in 1 .. n
        <5>1. stage1'[i] = stage1[i] /\ stage1[i] + 1 \in 1 .. Len(stage2)
          BY <4>1, <3>6 DEF BlockOK
        <5>2. stage2'[stage1[i] + 1] = stage2[stage1[i] + 1]
          BY <5>1, <3>5
        <5> QED BY <4>1, <5>1, <5>2, <3>5 DEF BlockOK
      <4>2. CASE i = n + 1
        <5>1. stage1'[i] + 1 = IndexOf(b)
          BY <4>2, <3>6, <3>4, <3>5
        <5>2. i - 1 = n
          BY <4>2, <2>2
        <5> QED BY <5>1, <5>2, <3>2, <3>5, <2>3
      <4> QED BY <4>1, <4>2, <2>2
    <3>11. Shares'
      <4>1. CASE IndexOf(b) > Len(stage2)
        BY <4>1, <3>1, <3>3, <3>4, <3>5 DEF Shares
      <4>2. CASE ~(IndexOf(b) > Len(stage2))
        BY <4>2, <3>1 DEF Shares
      <4> QED BY <4>1, <4>2
    <3> QED BY <3>7, <3>8, <3>9, <3>10, <3>11
  <2> QED BY <2>4, <2>5
<1> QED BY <1>1, <1>2

THEOREM Lookup == Inv => Faithful /\ Shares /\ Flushed /\ Complete /\ IndexFits
<1> SUFFICES ASSUME Inv PROVE Faithful /\ Shares /\ Flushed /\ Complete /\ IndexFits
  OBVIOUS
<1> USE DEF Inv, TypeOK
<1>0. Len(stage1) \in Nat /\ Len(cur) \in 0 .. (bs - 1) /\ Len(stage1) * bs \in Nat
  OBVIOUS
<1>1. Faithful
  <2> SUFFICES ASSUME NEW p \in 0 .. (Len(stage1) * bs - 1) PROVE At(p) = f[p]
    BY DEF Faithful
  <2>1. p \in Nat /\ p < Len(stage1) * bs
    BY <1>0
  <2> DEFINE e == p \div bs
             r == p % bs
  <2>2. e \in Nat /\ r \in 0 .. (bs - 1) /\ p = e * bs + r
    BY <2>1, Division
  <2>3. e < Len(stage1)
    BY <2>1, <1>0, Below
  <2> HIDE DEF e, r
  <2>4. e + 1 \in 1 .. Len(stage1) /\ r + 1 \in 1 .. bs /\ (e + 1) - 1 = e /\ e * bs \in Nat
    BY <2>2, <2>3, <1>0
  <2>5. stage2[stage1[e + 1] + 1][r + 1] = f[((e + 1) - 1) * bs + (r + 1) - 1]
    BY <2>4 DEF BlockOK
  <2>6. ((e + 1) - 1) * bs + (r + 1) - 1 = p
    BY <2>2, <2>4
  <2> QED BY <2>5, <2>6 DEF At, e, r
<1>2. Flushed
  BY <1>0, Quotient DEF Place, Flushed
<1>3. Complete
  <2> SUFFICES ASSUME cp = Size PROVE Len(stage1) * bs = Size
    BY DEF Complete
  <2>1. Size % bs = Len(cur)
    BY <1>0, Quotient DEF Place
  <2> QED BY <2>1, <1>0 DEF Place
<1>4. IndexFits
  BY DEF IndexFits, BlockOK
<1> QED BY <1>1, <1>2, <1>3, <1>4

THEOREM Correct == Spec => [](Faithful /\ Shares /\ Flushed /\ Complete /\ IndexFits)
<1>1. Spec => []Inv
  BY InitInv, NextInv, PTL DEF Spec
<1> QED BY <1>1, Lookup, PTL
=============================================================================
