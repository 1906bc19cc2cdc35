------------------------------ MODULE NormExport ------------------------------
(* Exports the character classes normalization distinguishes, as alphabets for  *)
(* the generators of the harness.                                               *)
EXTENDS Norm
Cps(test(_)) == {DM[i].cp : i \in {j \in 1 .. Len(DM) : test(DM[j])}}
NonStarters == UNION {Atoms.lo[a] .. ((IF a < NAtoms THEN Atoms.lo[a + 1] - 1 ELSE MaxCP)) :
                      a \in {x \in 1 .. NAtoms : Atoms.vecs[Atoms.vi[x]].ccc # 0}}
Export(v) == [ version |-> v,
  firsts  |-> SetToSeq(Firsts), seconds |-> SetToSeq(Seconds),
  pairs   |-> [i \in 1 .. Len(PrimaryDM) |-> PrimaryDM[i].map \o <<PrimaryDM[i].cp>>],
  can     |-> SetToSeq(Cps(LAMBDA d : d.can)),
  compat  |-> SetToSeq(Cps(LAMBDA d : ~d.can)),
  inert   |-> SetToSeq({c \in {0, 9, 10, 32, 49, 169, 1488, 1633, 3585, 8204, 8205, 12290, 19968, 57344, 65279, 65533, 65536,
                        66304, 120000, 128512, 131072, 917505, 1114109} : Inert(c)}),
  excl    |-> SetToSeq(Cps(LAMBDA d : d.can /\ CompEx(d.cp))),
  exclmap |-> LET e == SelectSeq(DM, LAMBDA d : d.can /\ CompEx(d.cp)) IN [i \in 1 .. Len(e) |-> e[i].map],
  full    |-> [i \in 1 .. Len(DM) |-> [c |-> DM[i].cp, can |-> FullCanTab[i], com |-> FullComTab[i]]],
  marks   |-> LET m == SetToSeq(NonStarters) IN [i \in 1 .. Len(m) |-> <<CCC(m[i]), m[i]>>] ]
ASSUME JsonSerialize(IOEnv.VOUT, Export("15.1.0"))
VARIABLE q
Init == q = 0
Next == q < Len(PrimaryDM) /\ q' = q + 1
Spec == Init /\ [][Next]_q
(* every primary composite recomposes from its mapping, and decomposes back *)
PairsAgree == q > 0 => LET d == PrimaryDM[q] IN
    /\ Composite(d.map[1], d.map[2]) = d.cp
    /\ NFC(d.map) = <<d.cp>> /\ NFD(<<d.cp>>) = NFD(d.map)
=============================================================================
