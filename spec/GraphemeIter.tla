----------------------------- MODULE GraphemeIter -----------------------------
(***************************************************************************)
(* The segmentation iterator as an abstract sequence reader, bound to the  *)
(* recorded calls.  Per text the trace has the pieces a plain traversal    *)
(* yields, as <<byte offset, byte length>>, and several "drives": call     *)
(* sequences <<op, argument, result>> on a fresh iterator.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
Texts == Trace.texts
N == Len(Texts)
Chunk == 64

VARIABLES k,      \* text
          d,      \* drive of that text (0: none started)
          o,      \* operations of the drive consumed
          read,   \* pieces the iterator has handed out or skipped
          ok      \* the last operation's recorded result was the specified one
vars == <<k, d, o, read, ok>>
T == Texts[k]
P == T.pieces
NP == Len(P)

(* Lossless: consecutive, non-empty, covering, nothing beyond. *)
Lossless(t) ==
  /\ (t.bytes = 0) = (t.pieces = <<>>)
  /\ \A j \in 1 .. Len(t.pieces) :
        /\ t.pieces[j][2] > 0
        /\ t.pieces[j][1] = IF j = 1 THEN 0 ELSE t.pieces[j - 1][1] + t.pieces[j - 1][2]
  /\ t.pieces # <<>> => LET z == t.pieces[Len(t.pieces)] IN z[1] + z[2] = t.bytes

Min(a, b) == IF a < b THEN a ELSE b
Piece(j) == IF j <= NP THEN P[j] ELSE <<>>
Rest == SubSeq(P, read + 1, NP)
(* first of the remaining pieces longer than a bytes: 0 if there is none *)
RECURSIVE FirstLonger(_, _)
FirstLonger(j, a) == IF j > NP THEN 0 ELSE IF P[j][2] > a THEN j ELSE FirstLonger(j + 1, a)
RECURSIVE Every(_, _)
Every(j, a) == IF j > NP THEN <<>> ELSE <<P[j]>> \o Every(j + a, a)

(* specified result and successor position of operation op(a) *)
Spec_(op, a, res) ==
  CASE op = "next"      -> <<res = Piece(read + 1), Min(read + 1, NP)>>
    [] op = "nth"       -> <<res = Piece(read + a + 1), Min(read + a + 1, NP)>>
    [] op = "skip_next" -> <<res = Piece(read + a + 1), Min(read + a + 1, NP)>>
    [] op = "size_hint" -> <<res[1] <= NP - read /\ (res[2] = -1 \/ NP - read <= res[2]), read>>
    [] op = "take"      -> <<res = SubSeq(P, read + 1, Min(read + a, NP)), Min(read + a, NP)>>
    [] op = "position"  -> LET j == FirstLonger(read + 1, a) IN
                           <<res = (IF j = 0 THEN <<>> ELSE <<j - read - 1>>), IF j = 0 THEN NP ELSE j>>
    [] op = "count"     -> <<res = NP - read, NP>>
    [] op = "last"      -> <<res = (IF read = NP THEN <<>> ELSE P[NP]), NP>>
    [] op = "collect"   -> <<res = Rest, NP>>
    [] op = "step_by"   -> <<res = Every(read + 1, a), NP>>

Init == /\ k \in {j \in 1 .. N : j % Chunk = 1}
        /\ d = 0 /\ o = 0 /\ read = 0 /\ ok = TRUE
Call == /\ d > 0 /\ o < Len(T.drives[d])
        /\ LET c == T.drives[d][o + 1]
               e == Spec_(c[1], c[2], c[3])
           IN ok' = e[1] /\ read' = e[2]
        /\ o' = o + 1
        /\ UNCHANGED <<k, d>>
DriveDone == IF d = 0 THEN TRUE ELSE o = Len(T.drives[d])
NewDrive == /\ DriveDone /\ d < Len(T.drives)
            /\ d' = d + 1 /\ o' = 0 /\ read' = 0 /\ ok' = TRUE /\ k' = k
NextText == /\ DriveDone /\ d = Len(T.drives)
            /\ k < N /\ (k + 1) % Chunk # 1
            /\ k' = k + 1 /\ d' = 0 /\ o' = 0 /\ read' = 0 /\ ok' = TRUE
Next == Call \/ NewDrive \/ NextText
Spec == Init /\ [][Next]_vars

IsLossless == Lossless(T) \/ /\ PrintT("MISMATCH " \o ToJson([what |-> "pieces are not the consecutive non-empty slices of the input",
                                       text |-> T.s, bytes |-> T.bytes, pieces |-> P]))
                             /\ FALSE
Protocol == ok \/ /\ PrintT("MISMATCH " \o ToJson([what |-> "iterator call disagrees with the plain traversal", text |-> T.s,
                                  pieces |-> P, calls |-> SubSeq(T.drives[d], 1, o)]))
                  /\ FALSE
=============================================================================
