------------------------------ MODULE NamesTrace ------------------------------
(* Reader of the recorded names: rows [lo, hi, text, pattern, char], contiguous  *)
(* over the code space; pattern rows are text followed by the code point in hex. *)
EXTENDS Names
Trace == JsonDeserialize(IOEnv.VTRACE)
Rows == Trace.rows
N == Len(Rows)
Chunk == 512
VARIABLE k
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k

Covers(j) == Rows[j][1] = IF j = 1 THEN 0 ELSE Rows[j - 1][2] + 1
Last(j) == j < N \/ Rows[j][2] = 1114111
Value(r) ==
  IF r[4] THEN \/ \E i \in 1 .. Len(Ranges) : Ranges[i].lo <= r[1] /\ r[2] <= Ranges[i].hi /\ Ranges[i].prefix = r[3]
               \/ \A c \in r[1] .. r[2] : NameOf(c) = r[3] \o Hex4(c)
  ELSE IF r[3] = "" THEN Nameless(r[1], r[2])
  ELSE r[1] = r[2] /\ NameOf(r[1]) = r[3]
Receivers(r) == r[5] = IF 55296 <= r[1] /\ r[2] <= 57343 THEN "surrogate" ELSE "same"
Row(j) == Covers(j) /\ Last(j) /\ Value(Rows[j]) /\ Receivers(Rows[j])
Conforms == Row(k)
  \/ /\ PrintT("MISMATCH " \o ToJson([lo |-> Rows[k][1], hi |-> Rows[k][2], recorded |-> Rows[k][3], followed_by_hex |-> Rows[k][4],
                    char |-> Rows[k][5], expected_first |-> NameOf(Rows[k][1])]))
     /\ FALSE

(* No two code points share a name: the library's single names are distinct, and *)
(* a prefix is used by one set of code points only (hex makes those distinct).   *)
Singles == {j \in 1 .. N : ~Rows[j][4] /\ Rows[j][3] # ""}
Unique == k = 1 =>
  \/ Cardinality({Rows[j][3] : j \in Singles}) = Cardinality(Singles)
  \/ /\ LET seen == {Rows[j][3] : j \in Singles}
            twice == {n \in seen : Cardinality({j \in Singles : Rows[j][3] = n}) > 1}
        IN PrintT("MISMATCH " \o ToJson([law |-> "no two code points share a name", shared |-> twice]))
     /\ FALSE
=============================================================================
