------------------------------ MODULE Graphemes ------------------------------
(***************************************************************************)
(* Extended grapheme clusters of UAX #29 (Unicode 15.1), declaratively.    *)
(* The rules are in GraphemeRules; here are the classes of 15.1.           *)
(***************************************************************************)
EXTENDS Ucd, SequencesExt, GraphemeRules

ClassOfVec(b) == Class(b.gcb, InCB(b), b.ext_pict)

(* The classes that occur in Unicode 15.1, in a fixed order *)
ClassSet == {ClassOfVec(b) : b \in Range(Atoms.vecs)}
Classes == SetToSeq(ClassSet)
NClasses == Len(Classes)
ClassIdx == [c \in ClassSet |-> CHOOSE k \in 1 .. NClasses : Classes[k] = c]
VecClass == [v \in 1 .. Len(Atoms.vecs) |-> ClassOfVec(Atoms.vecs[v])]
ClassOf(c) == VecClass[VecOf(c)]

(* Lengths of the clusters, in order *)
ClusterLengths(s) ==
  LET f == FoldLeft(LAMBDA a, n : IF n = Len(s) \/ BreakAt(s, n)
                                  THEN [out |-> Append(a.out, n - a.from), from |-> n] ELSE a,
                    [out |-> <<>>, from |-> 0], [n \in 1 .. Len(s) |-> n])
  IN f.out
=============================================================================
