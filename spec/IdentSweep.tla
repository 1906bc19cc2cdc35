------------------------------ MODULE IdentSweep ------------------------------
(***************************************************************************)
(* UAX #31 identifier properties over the code space: ID_Start and         *)
(* ID_Continue from Ucd; the XID variants remove exactly the characters    *)
(* whose NFKC form, computed by Norm, would not be an identifier part      *)
(* (UAX #31 5.1).  Reader of the recorded sweep as in PropSweep.           *)
(***************************************************************************)
EXTENDS Norm
Obs == JsonDeserialize(IOEnv.VTRACE)
NRuns == Len(Obs.lo)
NCols == Len(Obs.cols)
IDS(c) == IDStart(Base(c))
IDC(c) == IDContinue(Base(c))
Conts(s) == \A i \in 1 .. Len(s) : IDC(s[i])
XIDC(c) == IDC(c) /\ Conts(NFKC(<<c>>))
XIDS(c) == IDS(c) /\ LET s == NFKC(<<c>>) IN IDS(s[1]) /\ Conts(Tail(s))
DmCps == {DM[i].cp : i \in 1 .. Len(DM)}
ExclC == {c \in DmCps : IDC(c) /\ ~XIDC(c)}
ExclS == {c \in DmCps : IDS(c) /\ ~XIDS(c)}
ExclCuts == UNION {{c, c + 1} : c \in ExclC \cup ExclS}

VARIABLES pos, run, atom
vars == <<pos, run, atom>>
RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)
Chunk == 16384
Starts == {k * Chunk : k \in 0 .. (MaxCP \div Chunk)}
Init == /\ pos \in Starts
        /\ run = FindIn(Obs.lo, pos, 1, NRuns)
        /\ atom = FindIn(Atoms.lo, pos, 1, NAtoms)
RunEnd  == IF run < NRuns THEN Obs.lo[run + 1] ELSE MaxCP + 1
AtomEnd == IF atom < NAtoms THEN Atoms.lo[atom + 1] ELSE MaxCP + 1
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
End == Least({RunEnd, AtomEnd, (pos \div Chunk + 1) * Chunk} \cup {d \in ExclCuts : d > pos})
Advance == /\ End % Chunk # 0 /\ End <= MaxCP
           /\ pos' = End
           /\ run' = IF RunEnd = End THEN run + 1 ELSE run
           /\ atom' = IF AtomEnd = End THEN atom + 1 ELSE atom
Spec == Init /\ [][Advance]_vars

B(x) == IF x THEN "T" ELSE "F"
Expect(q, c) == CASE q = "ids" -> B(IDS(c)) [] q = "idc" -> B(IDC(c))
                  [] q = "xids" -> B(IDS(c) /\ c \notin ExclS)
                  [] q = "xidc" -> B(IDC(c) /\ c \notin ExclC)
Row == Obs.vecs[Obs.vi[run]]
OkCol(k) == LET e == Expect(Obs.cols[k], pos)
            IN Row[k] = e /\ Row[NCols + k] = IF IsScalar(pos) THEN e ELSE "-"
Bad == {k \in 1 .. NCols : ~OkCol(k)}
Conforms ==
  \/ Bad = {}
  \/ LET k == CHOOSE k \in Bad : TRUE
     IN /\ PrintT("MISMATCH " \o ToJson([lo |-> pos, hi |-> End - 1, query |-> Obs.cols[k],
                   expected |-> Expect(Obs.cols[k], pos), code_point |-> Row[k], char |-> Row[NCols + k]]))
        /\ FALSE
=============================================================================
