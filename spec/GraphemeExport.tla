---------------------------- MODULE GraphemeExport ----------------------------
(* Writes the iterator machine (states, transitions, decisions) and the class of *)
(* every atom of the code space, for replay against the implementation.          *)
EXTENDS GraphemeMachine
(* A finer partition of the code space than the machine needs: classes split by every *)
(* other property an implementation might (wrongly) let decide.                       *)
FineOf(v) == LET b == Atoms.vecs[v] i == InCB(b) IN
  <<VecClass[v], b.gc, b.ccc, b.insc, b.wb, b.emoji, b.epres, b.emod, b.ebase, b.ecomp, b.vs,
    IF i \in {"Linker", "Consonant"} THEN b.sc ELSE "">>
Export(version) ==
  LET states == <<Start>> \o SetToSeq(MachineStates \ {Start})
      index  == [s \in MachineStates |-> CHOOSE k \in DOMAIN states : states[k] = s]
      fineset == {FineOf(v) : v \in 1 .. Len(Atoms.vecs)}
      fines  == SetToSeq(fineset)
      findex == [f \in fineset |-> CHOOSE k \in DOMAIN fines : fines[k] = f]
      vfine  == [v \in 1 .. Len(Atoms.vecs) |-> findex[FineOf(v)] - 1]
  IN [ version |-> version, nfine |-> Len(fines),
       fine |-> [a \in 1 .. NAtoms |-> vfine[Atoms.vi[a]]],
       classes |-> Classes,
       delta |-> [k \in DOMAIN states |-> [c \in 1 .. NClasses |-> index[Feed(states[k], Classes[c])] - 1]],
       brk   |-> [k \in DOMAIN states |-> [c \in 1 .. NClasses |-> IF BreaksBefore(states[k], Classes[c]) THEN 1 ELSE 0]],
       lo    |-> Atoms.lo,
       cls   |-> [a \in 1 .. NAtoms |-> ClassIdx[VecClass[Atoms.vi[a]]] - 1] ]
ASSUME JsonSerialize(IOEnv.VOUT, Export("15.1.0"))

(* The exported machine is also explored as a transition system: every state of  *)
(* it is visited and every decision is total.                                    *)
VARIABLE q
Init == q = Start
Next == \E c \in ClassSet : q' = Feed(q, c)
Spec == Init /\ [][Next]_q
TypeOK == q \in MachineStates
=============================================================================
