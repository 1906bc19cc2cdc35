----------------------------- MODULE GraphemeLocal -----------------------------
(***************************************************************************)
(* Clusters are self-contained and segmentation restarts at any boundary:  *)
(* laws between recorded segmentations of related texts (no reference data *)
(* beyond the control class).  GraphemeMC proves the same laws of UAX #29  *)
(* itself, for every class text up to its bound (Restartable).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
Chunk == 128
VARIABLE k
Init == k \in {j \in 1 .. N : j % Chunk = 1}
Next == k < N /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k

CR == 13   LF == 10
Sane(t)   == t.s = <<>> \/ (t.l # <<>> /\ t.l[1] > 0)
Suffix(t) == \A j \in 1 .. Len(t.l) : t.suf[j] = SubSeq(t.l, j, Len(t.l))
Alone(t)  == \A j \in 1 .. Len(t.l) : t.alone[j] = <<t.l[j]>>
(* appended text can only change the last cluster *)
Append_(t) == t.l = <<>> \/ (/\ Len(t.appl) >= Len(t.l)
                             /\ \A j \in 1 .. (Len(t.l) - 1) : t.appl[j] = t.l[j]
                             /\ t.appl[Len(t.l)] >= t.l[Len(t.l)])
(* a complete preceding line changes nothing; CR LF is one line end *)
Prepend(t) == (t.s # <<>> /\ t.ctl[Len(t.ctl)] = CR /\ t.s[1] = LF) \/ t.ctlsl = t.ctll \o t.l
Laws(t) == Sane(t) /\ Suffix(t) /\ Alone(t) /\ Append_(t) /\ Prepend(t)
Conforms == Laws(Texts[k])
  \/ /\ LET t == Texts[k] IN PrintT("MISMATCH " \o ToJson([record |-> t,
          sane |-> Sane(t), suffix |-> Sane(t) /\ Suffix(t), alone |-> Sane(t) /\ Alone(t), append |-> Append_(t), prepend |-> Prepend(t)]))
     /\ FALSE
=============================================================================
