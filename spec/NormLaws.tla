------------------------------- MODULE NormLaws -------------------------------
(***************************************************************************)
(* The law table of the normalization forms (UAX #15, chart of toNFx), as  *)
(* relations between recorded outputs of the library: no reference data.   *)
(* Record: s, f[i] = F_i(s), g[4(i-1)+j] = F_i(F_j(s)), forms in the order *)
(* NFD NFC NFKD NFKC.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
VARIABLE k
Chunk == 128
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k

Names == <<"nfd", "nfc", "nfkd", "nfkc">>
(* F_i after F_j is F_Law[i][j] *)
Law == << <<1, 1, 3, 3>>,    \* NFD  of NFD, NFC, NFKD, NFKC
          <<2, 2, 4, 4>>,    \* NFC
          <<3, 3, 3, 3>>,    \* NFKD
          <<4, 4, 4, 4>> >>  \* NFKC
Panics(t) == \E i \in 1 .. 4 : t.f[i] = <<-1>>
Bad(t) == {p \in (1 .. 4) \X (1 .. 4) : t.g[4 * (p[1] - 1) + p[2]] # t.f[Law[p[1]][p[2]]]}
Conforms ==
  LET t == Texts[k] IN
  \/ Bad(t) = {} /\ ~Panics(t)
  \/ LET p == IF Panics(t) THEN <<1, 1>> ELSE CHOOSE p \in Bad(t) : TRUE
     IN /\ PrintT("MISMATCH " \o ToJson([text |-> t.s, outer |-> Names[p[1]], inner |-> Names[p[2]],
             composed |-> t.g[4 * (p[1] - 1) + p[2]], law |-> Names[Law[p[1]][p[2]]],
             expected |-> t.f[Law[p[1]][p[2]]], inner_result |-> t.f[p[2]]]))
        /\ FALSE
=============================================================================
