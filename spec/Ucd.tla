-------------------------------- MODULE Ucd --------------------------------
(***************************************************************************)
(* The Unicode Character Database 15.1.0 as the library's environment.     *)
(*                                                                         *)
(* Base columns come from spec/data/atoms.json (a pinned format conversion *)
(* of the UCD files, see tools/gen_data.py): the code space 0..10FFFF is   *)
(* cut into 7148 "atoms", maximal intervals on which every base column is  *)
(* constant, and each atom names one of 2750 value vectors.  Every derived *)
(* property is DEFINED here, from the text of UAX #44 / DerivedCore-       *)
(* Properties / UAX #31, over those base columns.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

DataDir == IOEnv.VDATA
CodeSpace == 0 .. 1114111
MaxCP == 1114111

Atoms == JsonDeserialize(DataDir \o "/atoms.json")
NAtoms == Len(Atoms.lo)

(* The vector of base values of code point c. *)
VecOf(c) == Atoms.s2[Atoms.s1[(c \div 256) + 1]][(c % 256) + 1]
Base(c) == Atoms.vecs[VecOf(c)]

IsSurrogate(c) == c \in 55296 .. 57343
IsScalar(c) == c \in CodeSpace /\ ~IsSurrogate(c)

----------------------------------------------------------------------------
(* Derived properties.  b is a vector of base values, c the code point      *)
(* (needed only where the UCD derivation names code points).               *)

Bc(b) == IF b.bc # "" THEN b.bc ELSE b.bc_missing

Math(b)  == b.gc = "Sm" \/ b.omath
Lower(b) == b.gc = "Ll" \/ b.olower
Upper(b) == b.gc = "Lu" \/ b.oupper
Cased(b) == Lower(b) \/ Upper(b) \/ b.gc = "Lt"
Alpha(b) == Lower(b) \/ Upper(b) \/ b.gc \in {"Lt", "Lm", "Lo", "Nl"} \/ b.oalpha
CaseIgnorable(b) == \/ b.gc \in {"Mn", "Me", "Cf", "Lm", "Sk"}
                    \/ b.wb \in {"ML", "MB", "SQ"}
InterlinearAnnotation(c) == c \in 65529 .. 65531          \* FFF9..FFFB
EgyptianFormat(c) == c \in 78896 .. 78912                 \* 13430..13440
DefaultIgnorable(b, c) == /\ b.odi \/ b.gc = "Cf" \/ b.vs
                          /\ ~b.wspace /\ ~b.pcm
                          /\ ~InterlinearAnnotation(c) /\ ~EgyptianFormat(c)
GraphemeExtend(b) == b.gc \in {"Me", "Mn"} \/ b.ogr_ext
(* The intervals on which DefaultIgnorable needs the code point itself *)
DICuts == {65529, 65532, 78896, 78913}

IDStart(b) == /\ b.gc \in {"Lu", "Ll", "Lt", "Lm", "Lo", "Nl"} \/ b.oids
              /\ ~b.pat_syn /\ ~b.pat_ws
IDContinue(b) == /\ IDStart(b) \/ b.gc \in {"Mn", "Mc", "Nd", "Pc"} \/ b.oidc
                 /\ ~b.pat_syn /\ ~b.pat_ws

(* Indic_Conjunct_Break, UAX #44 for Unicode 15.1 *)
InCBScripts == {"Beng", "Deva", "Gujr", "Mlym", "Orya", "Telu"}
InCB(b) ==
  IF b.sc \in InCBScripts /\ b.insc = "Virama" THEN "Linker"
  ELSE IF b.sc \in InCBScripts /\ b.insc = "Consonant" THEN "Consonant"
  ELSE IF /\ (b.gcb = "EX" /\ b.ccc # 0) \/ b.gcb = "ZWJ"
          /\ b.insc \notin {"Virama", "Consonant"} THEN "Extend"
  ELSE "None"
=============================================================================
