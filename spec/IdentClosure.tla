----------------------------- MODULE IdentClosure -----------------------------
(***************************************************************************)
(* XID identifiers are closed under the four forms: a law between the      *)
(* library's own answers.  v[1] classifies the characters of the text,     *)
(* v[2..5] those of its NFD, NFC, NFKD and NFKC: 2 XID_Start and           *)
(* XID_Continue, 1 XID_Continue only, 0 neither, 3 start but not continue. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
VARIABLE k
Chunk == 128
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k
Identifier(f) == Len(f) > 0 /\ f[1] = 2 /\ \A i \in 2 .. Len(f) : f[i] \in {1, 2}
StartsContinue(f) == \A i \in 1 .. Len(f) : f[i] \notin {3, -1}
Closed(v) == Identifier(v[1]) => \A i \in 2 .. 5 : Identifier(v[i])
(* nor is a text turned into an identifier character by character: continues stay continues *)
Ok(v) == Closed(v) /\ \A i \in 1 .. 5 : StartsContinue(v[i])
Conforms == Ok(Texts[k].v)
  \/ /\ PrintT("MISMATCH " \o ToJson([law |-> "identifiers are closed under normalization", text |-> Texts[k].s,
          last |-> Texts[k].hi, classes |-> Texts[k].v]))
     /\ FALSE
=============================================================================
