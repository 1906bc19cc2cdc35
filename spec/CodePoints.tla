------------------------------ MODULE CodePoints ------------------------------
(***************************************************************************)
(* CodePoint: construction over all 2^32 integers (numbers are pairs of    *)
(* 16-bit halves here), conversion from char, and the printed form.        *)
(***************************************************************************)
EXTENDS Names
Trace == JsonDeserialize(IOEnv.VTRACE)
(* The observation is three run-length traces; the readers move over them. *)
VARIABLES part, k
Len_(p) == CASE p = "new" -> Len(Trace.new) [] p = "char" -> Len(Trace.char) [] p = "shown" -> Len(Trace.shown)
Chunk == 1024
Init == part \in {"new", "char", "shown"} /\ k \in {j \in 1 .. Len_(part) : j % Chunk = 1}
Next == k < Len_(part) /\ (k + 1) % Chunk # 1 /\ k' = k + 1 /\ part' = part
Spec == Init /\ [][Next]_<<part, k>>

(* runs of CodePoint::new: from [hi16, lo16] on, until the next run *)
NewStart(j) == <<Trace.new[j][1], Trace.new[j][2]>>
NewOk == CASE k = 1 -> NewStart(1) = <<0, 0>> /\ Trace.new[1][3] = "ok" /\ Len(Trace.new) = 2
           [] k = 2 -> NewStart(2) = <<17, 0>> /\ Trace.new[2][3] = "err"      \* 110000
           [] OTHER -> FALSE
CharOk == LET r == Trace.char[k] IN
  /\ r[1] = IF k = 1 THEN 0 ELSE Trace.char[k - 1][2] + 1
  /\ k = Len(Trace.char) => r[2] = 1114111
  /\ r[3] = IF r[1] >= 55296 /\ r[2] <= 57343 THEN "surrogate" ELSE "same"
(* sixteen code points per row: common prefix, last digits *)
ShownOk == Trace.shown[k] = <<"U+" \o HexN(k - 1, 3), "0123456789ABCDEF">>
Ok == CASE part = "new" -> NewOk [] part = "char" -> CharOk [] part = "shown" -> ShownOk
Seen == IF part = "new" THEN SubSeq(Trace.new, 1, IF Len(Trace.new) < 8 THEN Len(Trace.new) ELSE 8) ELSE IF part = "char" THEN Trace.char[k] ELSE Trace.shown[k]
Where == IF part = "shown" THEN HexN(k - 1, 3) \o "0" ELSE ""
Conforms ==
  \/ Ok
  \/ /\ PrintT("MISMATCH " \o ToJson([part |-> part, row |-> k, recorded |-> Seen, block |-> Where]))
     /\ FALSE
ASSUME Len(Trace.shown) = 69632
=============================================================================
