--------------------------- MODULE TwoStageBuilder ---------------------------
(***************************************************************************)
(* Design of the two-stage table: the builder reads the values of a code   *)
(* space in order, one character per step, flushing full blocks; a block   *)
(* that is already there is shared.  At is the lookup.                     *)
(* TwoStageMC explores it for small code spaces; TwoStageProof proves      *)
(* Faithful and the rest for every size, block size and function.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Size, Values
VARIABLES f, bs, cp, cur, stage1, stage2
vars == <<f, bs, cp, cur, stage1, stage2>>
Divisors == {d \in 1 .. Size : Size % d = 0}
Init == /\ f \in [0 .. Size - 1 -> Values] /\ bs \in Divisors
        /\ cp = 0 /\ cur = <<>> /\ stage1 = <<>> /\ stage2 = <<>>
IndexOf(b) == IF \E i \in 1 .. Len(stage2) : stage2[i] = b THEN CHOOSE i \in 1 .. Len(stage2) : stage2[i] = b ELSE Len(stage2) + 1
Add == /\ cp < Size
       /\ LET b == Append(cur, f[cp]) IN
          IF Len(b) < bs THEN cur' = b /\ UNCHANGED <<stage1, stage2>>
          ELSE /\ cur' = <<>>
               /\ stage1' = Append(stage1, IndexOf(b) - 1)
               /\ stage2' = IF IndexOf(b) > Len(stage2) THEN Append(stage2, b) ELSE stage2
       /\ cp' = cp + 1 /\ UNCHANGED <<f, bs>>
Spec == Init /\ [][Add]_vars
At(p) == stage2[stage1[(p \div bs) + 1] + 1][(p % bs) + 1]
(* every flushed character is looked up right, at every step *)
Faithful == \A p \in 0 .. (Len(stage1) * bs - 1) : At(p) = f[p]
Shares == \A i, j \in 1 .. Len(stage2) : stage2[i] = stage2[j] => i = j
Flushed == Len(stage1) = cp \div bs /\ Len(cur) = cp % bs
Complete == cp = Size => Len(stage1) * bs = Size
IndexFits == \A i \in 1 .. Len(stage1) : stage1[i] \in 0 .. Len(stage2) - 1
=============================================================================
