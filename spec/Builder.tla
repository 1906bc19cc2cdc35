------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The table builder: what a generated two-stage table must answer, for    *)
(* configurations drawn by drivers/table_builder.py.  A configuration has  *)
(* ascending disjoint ranges data (<<start, end, value>>), a default, and  *)
(* possibly missing ranges.  The recorded table (a compiled and executed   *)
(* program) is run-length encoded: value val[j] from lo[j] on.             *)
(* The machine is a reader of the code space, one interval per step, on    *)
(* which the specified and the recorded value are both constant.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Trace == JsonDeserialize(IOEnv.VTRACE)
Cases == Trace.cases
NC == Len(Cases)
MaxCP == 1114111
Space == 1114112

VARIABLES part, \* reading the table, or judging its size
          k,    \* case
          pos,  \* first code point of the interval
          di,   \* number of data ranges that start at or before pos
          run   \* recorded run
vars == <<part, k, pos, di, run>>
C == Cases[k]
ND == Len(C.data)
NRuns == Len(C.lo)

RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)
(* one reader per 65536 code points *)
Chunk == 65536
Init == /\ part \in {"table", "size"}
        /\ k \in {j \in 1 .. NC : part = "size" \/ Cases[j].lo # <<>>}
        /\ pos \in (IF part = "size" THEN {0} ELSE {j * Chunk : j \in 0 .. 16})
        /\ run = IF part = "size" THEN 1 ELSE FindIn(C.lo, pos, 1, NRuns)
        /\ di = IF ND = 0 \/ C.data[1][1] > pos THEN 0 ELSE FindIn(C.starts, pos, 1, ND)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
InData == di > 0 /\ pos <= C.data[di][2]
NextData == IF di < ND THEN C.data[di + 1][1] ELSE Space
MissingCuts == {c \in UNION {{m[1], m[2] + 1} : m \in {C.missing[i] : i \in 1 .. Len(C.missing)}} : c > pos /\ c <= MaxCP}
End == Least({(pos \div Chunk + 1) * Chunk, IF InData THEN C.data[di][2] + 1 ELSE NextData, IF run < NRuns THEN C.lo[run + 1] ELSE Space}
             \cup (IF InData THEN {} ELSE MissingCuts))
Next == /\ part = "table"
        /\ End % Chunk # 0
        /\ pos' = End
        /\ di' = IF NextData = End THEN di + 1 ELSE di
        /\ run' = IF run < NRuns /\ C.lo[run + 1] = End THEN run + 1 ELSE run
        /\ k' = k /\ part' = part
Spec == Init /\ [][Next]_vars

(* the value of the last missing range that contains pos *)
MissingAt(p) == {i \in 1 .. Len(C.missing) : C.missing[i][1] <= p /\ p <= C.missing[i][2]}
Value == IF InData THEN C.data[di][3]
         ELSE IF MissingAt(pos) # {} THEN C.missing[CHOOSE i \in MissingAt(pos) : \A j \in MissingAt(pos) : j <= i][3]
         ELSE C.default

Lossless ==
  \/ part = "size"
  \/ C.val[run] = Value
  \/ /\ PrintT("MISMATCH " \o ToJson([what |-> "the generated table does not return the value it was built from", case |-> C.id,
           lo |-> pos, hi |-> End - 1, expected |-> Value, recorded |-> C.val[run], in_data |-> InData, block_size |-> C.bs]))
     /\ FALSE

(***************************************************************************)
(* Sharing.  The run-length encoding of the specified function and, from   *)
(* it, the set of distinct block contents: a block with a cut inside is    *)
(* described by the cuts and the values after them, any other is uniform.  *)
(***************************************************************************)
IntSize(n) == IF n <= 256 THEN 1 ELSE IF n <= 65536 THEN 2 ELSE 4
Bytes(c, repr) ==
  LET starts == <<-1>> \o c.starts
      value(p) == LET d == FindIn(starts, p, 1, Len(starts)) - 1
                      m == {i \in 1 .. Len(c.missing) : c.missing[i][1] <= p /\ p <= c.missing[i][2]}
                  IN IF d > 0 /\ p <= c.data[d][2] THEN c.data[d][3]
                     ELSE IF m # {} THEN c.missing[CHOOSE i \in m : \A j \in m : j <= i][3] ELSE c.default
      ranges == c.data \o c.missing
      points == {0} \cup {ranges[i][1] : i \in 1 .. Len(ranges)} \cup {p \in {ranges[i][2] + 1 : i \in 1 .. Len(ranges)} : p <= MaxCP}
      lo == SetToSortSeq({p \in points : p = 0 \/ value(p) # value(p - 1)}, <)
      n == Len(lo)
      val == [i \in 1 .. n |-> value(lo[i])]
      end(j) == IF j < n THEN lo[j + 1] ELSE Space
      cutBlocks == {lo[i] \div c.bs : i \in {j \in 2 .. n : lo[j] % c.bs # 0}}
      sig(b) == LET f == FindIn(lo, b * c.bs, 1, n) z == FindIn(lo, (b + 1) * c.bs - 1, 1, n) IN
                [i \in 1 .. (z - f + 1) |-> <<IF i = 1 THEN 0 ELSE lo[f + i - 1] - b * c.bs, val[f + i - 1]>>]
      \* runs that contain a whole block
      whole == {j \in 1 .. n : ((lo[j] + c.bs - 1) \div c.bs + 1) * c.bs <= end(j)}
      \* data by the rule "block number b (below c.digits) holds the base-18 digits of b, any other the default,
      \* digit 0": as many different blocks as numbers, and too many to enumerate
      blocks == IF c.digits > 0 THEN c.digits ELSE Cardinality({sig(b) : b \in cutBlocks} \cup {<< <<0, val[j]>> >> : j \in whole})
  IN <<IntSize(blocks) * (Space \div c.bs) + blocks * c.bs * repr[1], IntSize(blocks) * (Space \div c.bs) + blocks * c.bs * repr[2]>>
Shared ==
  \/ part = "table"
  \/ C.bytes = Bytes(C, <<1, 3>>)
  \/ /\ PrintT("MISMATCH " \o ToJson([what |-> "equal blocks are not shared, or the index type is not the smallest wide enough",
           case |-> C.id, block_size |-> C.bs, expected_bytes |-> Bytes(C, <<1, 3>>), recorded |-> C.bytes]))
     /\ FALSE
=============================================================================
