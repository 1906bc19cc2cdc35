------------------------------- MODULE TwoStage -------------------------------
(***************************************************************************)
(* A two-stage table.  A position p is the pair (q, o) with p = q * bs + o,*)
(* 0 <= o < bs (the pair is recorded, so that the whole 32-bit range fits  *)
(* TLC's integers).  Block b's element o is Content(b, o).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Tables == Trace.tables
N == Len(Tables)
VARIABLE k
Chunk == 16
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
Content(b, o, salt) == ((b % 251) * 7919 + ((o % 251) * 31) + salt) % 251
T == Tables[k]
(* what entry q of stage 1 refers to; the largest tables are given by a rule *)
Entry(q) == IF T.mul = 0 THEN T.stage1[q + 1] ELSE ((q % T.blocks) * T.mul + T.add) % T.blocks
LookupOk(l) == /\ l[2] \in 0 .. (T.bs - 1)
               /\ l[3] = Content(Entry(l[1]), l[2], T.salt)
Bad == {i \in 1 .. Len(T.looks) : ~LookupOk(T.looks[i])}
Conforms ==
  \/ Bad = {}
  \/ LET i == CHOOSE i \in Bad : TRUE l == T.looks[i]
     IN /\ PrintT("MISMATCH " \o ToJson([table |-> T.kind, block_size |-> T.bs, block |-> l[1], offset |-> l[2],
               recorded |-> l[3], expected |-> Content(Entry(l[1]), l[2], T.salt)]))
        /\ FALSE
=============================================================================
