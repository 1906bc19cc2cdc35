-------------------------------- MODULE Ranges --------------------------------
(***************************************************************************)
(* The generator's interval types.  A history is a sequence of operations  *)
(* <<name, arguments, result>>.  Ranges are values: no operation changes   *)
(* one.  The state is the Missing list being built (pairs) and the element *)
(* the newest iteration of the history's range yields next (at); an        *)
(* iteration that has ended stays ended, whatever is asked of the range.   *)
(***************************************************************************)
EXTENDS Names, SequencesExt
Trace == JsonDeserialize(IOEnv.VTRACE)
H == Trace.histories
N == Len(H)
VARIABLES k, o, pairs, at, ok
vars == <<k, o, pairs, at, ok>>
Chunk == 64

Error == [raised |-> "ValueError"]
Min2(a, b) == IF a < b THEN a ELSE b
In(x, a, b) == a <= x /\ x <= b
Sorted(rs) == SortSeq(rs, LAMBDA x, y : x[1] < y[1])
(* the value of the last appended range that contains z *)
Answer(z) == LET S == {i \in 1 .. Len(pairs) : In(z, pairs[i][1], pairs[i][2])} IN
   IF S = {} THEN <<>> ELSE <<pairs[CHOOSE i \in S : \A j \in S : j <= i][3]>>
(* uses of a range while it is being iterated: after m elements and after every 50th *)
Uses(a) == LET n == a[2] - a[1] + 1 IN Cardinality({i \in 1 .. n : i = a[3] \/ i % 50 = 0})
Answered(a) ==
  CASE a[4] = "repr" -> Hex4(a[1]) \o ".." \o Hex4(a[2])
    [] a[4] = "contains" -> TRUE
    [] a[4] = "ends" -> <<a[1], a[2]>>
    [] a[4] = "lt" -> TRUE
    [] a[4] = "gt" -> FALSE
    [] a[4] = "sort" -> << <<a[1], a[2]>>, <<a[2] + 1, a[2] + 9>> >>
    [] a[4] = "other" -> << <<a[2] + 1, 9>> >>
    [] a[4] = "copy" -> <<a[1]>>
Specified(op, a) ==
  CASE op = "new"      -> << IF a[2] < a[1] THEN Error ELSE <<a[1], a[2]>> >>
    [] op = "new1"     -> << <<a[1], a[1]>> >>
    [] op = "parse1"   -> << <<a[1], a[1]>> >>
    [] op = "parse2"   -> << IF a[2] < a[1] THEN Error ELSE <<a[1], a[2]>> >>
    [] op = "reparse"  -> << <<a[1], a[2]>> >>
    [] op = "repr"     -> << Hex4(a[1]) \o ".." \o Hex4(a[2]) >>
    [] op = "ends"     -> << <<a[1], a[2]>> >>
    [] op = "iterate"  -> << << <<a[1], a[2] - a[1] + 1>> >> >>
    [] op = "interleaved" -> << << << <<a[1], a[2] - a[1] + 1>> >>, [i \in 1 .. Uses(a) |-> Answered(a)]>> >>
    [] op = "begin"    -> << >>
    [] op = "step"     -> << IF at <= a[2] THEN at ELSE -1 >>
    [] op = "partial"  -> << [i \in 1 .. Min2(a[3], a[2] - a[1] + 1) |-> a[1] + i - 1] >>
    [] op = "contains" -> << In(a[3], a[1], a[2]) >>
    [] op = "lt"       -> << a[2] < a[3] >>      \* disjoint: the first ends before the second starts
    [] op = "gt"       -> << a[4] < a[1] >>
    [] op = "sort"     -> << Sorted(a) >>
    [] op = "str"      -> << Hex4(a[1]) \o ".." \o Hex4(a[2]) >>
    [] op = "append"   -> << >>
    [] op = "lookup"   -> Answer(a[1])
    [] OTHER           -> <<"an operation that returns">>
Same(op, r, s) == IF op \in {"new", "parse2"} /\ s[1] = Error THEN r # <<>> /\ r[1] = Error
                  ELSE r = s

Init == /\ k \in {j \in 1 .. N : j % Chunk = 1} /\ o = 0 /\ pairs = <<>> /\ at = 0 /\ ok = TRUE
Call == /\ o < Len(H[k].ops)
        /\ LET c == H[k].ops[o + 1] IN
             /\ ok' = (c[3] = Specified(c[1], c[2]))
             /\ pairs' = IF c[1] = "append" THEN Append(pairs, c[2]) ELSE pairs
             /\ at' = CASE c[1] = "begin" -> c[2][1]
                       [] c[1] = "step" /\ at <= c[2][2] -> at + 1
                       [] OTHER -> at
        /\ o' = o + 1 /\ k' = k
NextHistory == /\ o = Len(H[k].ops) /\ k < N /\ (k + 1) % Chunk # 1
               /\ k' = k + 1 /\ o' = 0 /\ pairs' = <<>> /\ at' = 0 /\ ok' = TRUE
Next == Call \/ NextHistory
Spec == Init /\ [][Next]_vars
Conforms == ok
  \/ /\ LET c == H[k].ops[o] IN PrintT("MISMATCH " \o ToJson([operation |-> c[1], arguments |-> c[2], recorded |-> c[3],
              specified |-> Specified(c[1], c[2]), history |-> [i \in 1 .. (o - 1) |-> SubSeq(H[k].ops[i], 1, 2)]]))
     /\ FALSE
=============================================================================
