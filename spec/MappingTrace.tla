----------------------------- MODULE MappingTrace -----------------------------
(* Decomposition_Mapping over the code space: rows [lo, hi, dm, char's dm].      *)
(* [-1] is a panic, [-2] "no char", [-3] a rejected code point.                  *)
EXTENDS Norm
Trace == JsonDeserialize(IOEnv.VTRACE)
Rows == Trace.rows
N == Len(Rows)
Chunk == 256
VARIABLE k
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
DmCps == [i \in 1 .. Len(DM) |-> DM[i].cp]
RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)
Upto(c) == IF c < DM[1].cp THEN 0 ELSE FindIn(DmCps, c, 1, Len(DM))
Covers(j) == Rows[j][1] = IF j = 1 THEN 0 ELSE Rows[j - 1][2] + 1
LastRow(j) == j < N \/ Rows[j][2] = MaxCP
Mapped(c) == IF HasAny(c) THEN Mapping(c) ELSE <<>>
Unmapped(lo, hi) == Upto(hi) = Upto(lo - 1) /\ (hi < SBase \/ lo > SBase + SCount - 1)
Value(r) == /\ IF r[1] = r[2] THEN r[3] = Mapped(r[1])
               ELSE IF r[3] = <<>> THEN Unmapped(r[1], r[2])
               ELSE \A c \in r[1] .. r[2] : r[3] = Mapped(c)
            /\ r[4] = IF 55296 <= r[1] /\ r[2] <= 57343 THEN <<-2>> ELSE r[3]
Row(j) == Covers(j) /\ LastRow(j) /\ Value(Rows[j])
Conforms == Row(k)
  \/ /\ PrintT("MISMATCH " \o ToJson([lo |-> Rows[k][1], hi |-> Rows[k][2], dm |-> Rows[k][3], char_dm |-> Rows[k][4],
                    expected_first |-> Mapped(Rows[k][1]), expected_last |-> Mapped(Rows[k][2])]))
     /\ FALSE
(* dm and dt of the UCD agree (a theorem about the reference data) *)
ASSUME \A i \in 1 .. Len(DM) : (Dt(DM[i].cp) = "Can") = DM[i].can /\ Dt(DM[i].cp) # "None"
=============================================================================
