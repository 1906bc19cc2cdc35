------------------------------ MODULE PropSweep ------------------------------
(***************************************************************************)
(* Trace validation of the property queries over the whole code space.     *)
(*                                                                         *)
(* The harness asks the real library for every listed property of every    *)
(* code point 0..10FFFF, through both receivers (CodePoint and char), and  *)
(* records the run-length encoding of the answers.  The state machine here *)
(* is the reader of the code space: it moves an interval cursor through    *)
(* the common refinement of the recorded runs and the UCD's atoms, so each *)
(* code point belongs to exactly one visited state, and on each interval   *)
(* the recorded answer must be the value the specification defines.        *)
(***************************************************************************)
EXTENDS Ucd

Obs == JsonDeserialize(IOEnv.VTRACE)
NRuns == Len(Obs.lo)
NCols == Len(Obs.cols)

B(x) == IF x THEN "T" ELSE "F"

(* The specified answer of query q for a code point c with base vector b. *)
Expect(q, b, c) ==
  CASE q = "bc"    -> Bc(b)
    [] q = "ccc"   -> ToString(b.ccc)
    [] q = "incb"  -> InCB(b)
    [] q = "math"  -> B(Math(b))
    [] q = "lower" -> B(Lower(b))
    [] q = "upper" -> B(Upper(b))
    [] q = "cased" -> B(Cased(b))
    [] q = "alpha" -> B(Alpha(b))
    [] q = "ci"    -> B(CaseIgnorable(b))
    [] q = "di"    -> B(DefaultIgnorable(b, c))
    [] q = "gr_ext" -> B(GraphemeExtend(b))
    [] q = "ids"   -> B(IDStart(b))
    [] q = "idc"   -> B(IDContinue(b))
    [] q \in {"gc", "gcb", "wb", "hst", "insc", "blk", "sc", "age", "dt"} -> b[q]
    [] OTHER       -> B(b[q])

----------------------------------------------------------------------------
VARIABLES pos,   \* first code point of the current interval
          run,   \* index of the recorded run containing it
          atom   \* index of the UCD atom containing it
vars == <<pos, run, atom>>

(* Largest index i of the ascending sequence s with s[i] <= x *)
RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)

Chunk == 16384
Starts == {k * Chunk : k \in 0 .. (MaxCP \div Chunk)}

Init == /\ pos \in Starts
        /\ run = FindIn(Obs.lo, pos, 1, NRuns)
        /\ atom = FindIn(Atoms.lo, pos, 1, NAtoms)

RunEnd  == IF run < NRuns THEN Obs.lo[run + 1] ELSE MaxCP + 1
AtomEnd == IF atom < NAtoms THEN Atoms.lo[atom + 1] ELSE MaxCP + 1
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the end (exclusive) of the current interval *)
End == Min({RunEnd, AtomEnd, (pos \div Chunk + 1) * Chunk} \cup {d \in DICuts : d > pos})

Advance == /\ End % Chunk # 0            \* the next chunk has its own reader
           /\ End <= MaxCP
           /\ pos' = End
           /\ run' = IF RunEnd = End THEN run + 1 ELSE run
           /\ atom' = IF AtomEnd = End THEN atom + 1 ELSE atom

Spec == Init /\ [][Advance]_vars

----------------------------------------------------------------------------
Row == Obs.vecs[Obs.vi[run]]
Vec == Atoms.vecs[Atoms.vi[atom]]

(* Both receivers must give the specified answer; char has no surrogates.  *)
OkCol(k) == LET e == Expect(Obs.cols[k], Vec, pos)
                scalar == IsScalar(pos)
            IN /\ Row[k] = e
               /\ Row[NCols + k] = IF scalar THEN e ELSE "-"

Bad == {k \in 1 .. NCols : ~OkCol(k)}

Conforms ==
  \/ Bad = {}
  \/ LET k == CHOOSE k \in Bad : TRUE
     IN /\ PrintT("MISMATCH " \o ToJson([lo |-> pos, hi |-> End - 1, query |-> Obs.cols[k],
                   expected |-> Expect(Obs.cols[k], Vec, pos),
                   code_point |-> Row[k], char |-> Row[NCols + k]]))
        /\ FALSE

(* The recorded trace covers the code space: it starts at 0, is ascending  *)
(* and every vector has one answer per query and receiver.                 *)
ASSUME TraceShape == /\ Obs.lo[1] = 0
                     /\ \A j \in 2 .. NRuns : Obs.lo[j - 1] < Obs.lo[j]
                     /\ Obs.lo[NRuns] <= MaxCP
                     /\ Len(Obs.vi) = NRuns
                     /\ \A j \in DOMAIN Obs.vecs : Len(Obs.vecs[j]) = 2 * NCols
=============================================================================
