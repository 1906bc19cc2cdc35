------------------------------ MODULE NormConcat ------------------------------
(***************************************************************************)
(* Normalization is a congruence for concatenation: laws between recorded  *)
(* outputs v = <<F(a), F(b), F(ab), F(F(a)F(b))>>.  The only reference     *)
(* data is the set of characters before which text may be cut.  A record   *)
(* with hi > 0 stands for a run of characters with equal abstracted        *)
(* outputs (b then is that one character).                                 *)
(***************************************************************************)
EXTENDS Norm
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
VARIABLE k
Chunk == 128
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k

Congruence(t) == t.v[4] = t.v[3]
Cut(t) == \/ t.v[3] = t.v[1] \o t.v[2]
          \/ t.b = <<>>
          \/ ~CutBefore(t.f, t.b[1]) /\ \A c \in (t.b[1] + 1) .. t.hi : ~CutBefore(t.f, c)
IsAscii(s) == \A i \in 1 .. Len(s) : s[i] \in 0 .. 127
Ascii(t) == (IsAscii(t.a) => t.v[1] = t.a) /\ (IsAscii(t.b) => t.v[2] = t.b)
NoPanic(t) == \A i \in 1 .. 4 : t.v[i] # <<-1>>
Conforms ==
  LET t == Texts[k] IN
  \/ Congruence(t) /\ Cut(t) /\ Ascii(t) /\ NoPanic(t)
  \/ /\ PrintT("MISMATCH " \o ToJson([form |-> t.f, a |-> t.a, b |-> t.b, fa |-> t.v[1], fb |-> t.v[2], fab |-> t.v[3],
                 ffafb |-> t.v[4], congruence |-> Congruence(t), cut |-> Cut(t), ascii |-> Ascii(t)]))
     /\ FALSE
=============================================================================
