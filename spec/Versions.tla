------------------------------- MODULE Versions -------------------------------
(* UnicodeVersion: lexicographic order and printed form.  Components are u32,    *)
(* written as pairs of 16-bit halves.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Pairs == Trace.pairs
Shown == Trace.shown
VARIABLES part, k
Len_(p) == IF p = "pairs" THEN Len(Pairs) ELSE Len(Shown)
Chunk == 512
Init == part \in {"pairs", "shown"} /\ k \in {j \in 1 .. Len_(part) : j % Chunk = 1}
Next == k < Len_(part) /\ (k + 1) % Chunk # 1 /\ k' = k + 1 /\ part' = part
Spec == Init /\ [][Next]_<<part, k>>

Less2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Less(a, b) == \/ Less2(a[1], b[1])
              \/ a[1] = b[1] /\ Less2(a[2], b[2])
              \/ a[1] = b[1] /\ a[2] = b[2] /\ Less2(a[3], b[3])
Order(a, b) == IF a = b THEN "=" ELSE IF Less(a, b) THEN "<" ELSE ">"
(* the six operators < <= == != >= > *)
Ops(o) == CASE o = "<" -> "TTFTFF" [] o = "=" -> "FTTFTF" [] o = ">" -> "FFFTTT"

(* decimal form of hi * 65536 + lo without leaving 31 bits *)
Dec(h) == LET low == h[1] * 5536 + h[2]
              top == h[1] * 6 + low \div 10000
              r == low % 10000
              pad == IF r < 10 THEN "000" ELSE IF r < 100 THEN "00" ELSE IF r < 1000 THEN "0" ELSE ""
          IN IF top = 0 THEN ToString(r) ELSE ToString(top) \o pad \o ToString(r)
Printed(v) == Dec(v[1]) \o "." \o Dec(v[2]) \o "." \o Dec(v[3])

PairOk == LET p == Pairs[k] o == Order(p[1], p[2]) IN p[3] = o /\ p[4] = Ops(o)
ShownOk == Shown[k][2] = Printed(Shown[k][1])
Conforms == (IF part = "pairs" THEN PairOk ELSE ShownOk)
  \/ /\ PrintT("MISMATCH " \o ToJson([recorded |-> IF part = "pairs" THEN Pairs[k] ELSE Shown[k],
         expected |-> IF part = "pairs" THEN Order(Pairs[k][1], Pairs[k][2]) ELSE Printed(Shown[k][1])]))
     /\ FALSE

(* ages name released versions none of which is newer than UNICODE_VERSION, and it is one of them *)
AgeOrder == <<"V1_1", "V2_0", "V2_1", "V3_0", "V3_1", "V3_2", "V4_0", "V4_1", "V5_0", "V5_1", "V5_2", "V6_0", "V6_1", "V6_2",
   "V6_3", "V7_0", "V8_0", "V9_0", "V10_0", "V11_0", "V12_0", "V12_1", "V13_0", "V14_0", "V15_0", "V15_1">>
Rank(a) == CHOOSE i \in 1 .. Len(AgeOrder) : AgeOrder[i] = a
Ages == {Trace.ages[i] : i \in 1 .. Len(Trace.ages)}
Current == k = 1 =>
  \/ /\ Trace.current = << <<0, 15>>, <<0, 1>>, <<0, 0>> >>
     /\ Trace.current_shown = "15.1.0"
     /\ Ages \subseteq {AgeOrder[i] : i \in 1 .. Len(AgeOrder)} \cup {"NA"}
     /\ "V15_1" \in Ages
  \/ /\ PrintT("MISMATCH " \o ToJson([current |-> Trace.current, shown |-> Trace.current_shown, ages |-> Trace.ages]))
     /\ FALSE
=============================================================================
