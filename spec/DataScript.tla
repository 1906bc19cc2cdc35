------------------------------ MODULE DataScript ------------------------------
(* The script that converts the source files of the Unicode character database   *)
(* into the data files of the generator (gen-json-data.py), as a machine: it     *)
(* reads the lines of the .env file, chooses the converter, runs it once per job *)
(* in any order, and every run writes one file.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Key == "UCD_JSON_DIR"
J(s, t) == [args |-> <<s>>, target |-> t]
Jobs15 ==
  { J("Blocks.txt", "Blocks.json"), J("CompositionExclusions.txt", "CompositionExclusions.json"), J("DerivedAge.txt", "DerivedAge.json"),
    J("DerivedNormalizationProps.txt", "DerivedNormalizationProps.json"), J("HangulSyllableType.txt", "HangulSyllableType.json"),
    J("NormalizationTest.txt", "NormalizationTest.json"), J("PropertyAliases.txt", "PropertyAliases.json"),
    J("PropertyValueAliases.txt", "PropertyValueAliases.json"), J("PropList.txt", "PropList.json"), J("Scripts.txt", "Scripts.json"),
    J("UnicodeData.txt", "UnicodeData.json"), J("IndicSyllabicCategory.txt", "IndicSyllabicCategory.json"),
    J("auxiliary/GraphemeBreakProperty.txt", "auxiliary/GraphemeBreakProperty.json"),
    J("auxiliary/GraphemeBreakTest.txt", "auxiliary/GraphemeBreakTest.json"),
    J("auxiliary/WordBreakProperty.txt", "auxiliary/WordBreakProperty.json"), J("emoji/emoji-data.txt", "emoji/emoji-data.json"),
    J("extracted/DerivedBidiClass.txt", "extracted/DerivedBidiClass.json"),
    [args |-> <<"--missing", "extracted/DerivedBidiClass.txt">>, target |-> "extracted/DerivedBidiClass.missing.json"],
    J("extracted/DerivedCombiningClass.txt", "extracted/DerivedCombiningClass.json"),
    J("extracted/DerivedDecompositionType.txt", "extracted/DerivedDecompositionType.json"),
    J("extracted/DerivedGeneralCategory.txt", "extracted/DerivedGeneralCategory.json"),
    J("extracted/DerivedName.txt", "extracted/DerivedName.json") }

(* a line is <<"set", key, value>>, <<"comment", ..>> or <<"blank", ..>>; "" is an unset variable *)
Start(given, lines, files) == [phase |-> "reading", lines |-> lines, dir |-> given, todo |-> {}, files |-> files]
ReadLine(s) == LET l == Head(s.lines) IN
  [s EXCEPT !.lines = Tail(@), !.dir = IF l[1] = "set" /\ l[2] = Key THEN l[3] ELSE @]
CanRead(s) == s.phase = "reading" /\ s.lines # <<>>
CanDecide(s) == s.phase = "reading" /\ s.lines = <<>>
Decide(s, jobs) == IF s.dir = "" THEN [s EXCEPT !.phase = "refused"] ELSE [s EXCEPT !.phase = "converting", !.todo = jobs]
(* the file of a job holds what the converter says, whatever it held before *)
Convert(s, j) == [s EXCEPT !.todo = @ \ {j},
                           !.files = {f \in @ : f[1] # j.target} \cup {<<j.target, <<s.dir>> \o j.args>>}]
CanConvert(s, j) == s.phase = "converting" /\ j \in s.todo
Ended(s) == s.phase = "refused" \/ (s.phase = "converting" /\ s.todo = {})

(* the same, declaratively *)
Chosen(given, lines) == LET S == {i \in 1 .. Len(lines) : lines[i][1] = "set" /\ lines[i][2] = Key} IN
  IF S = {} THEN given ELSE lines[CHOOSE i \in S : \A i2 \in S : i2 <= i][3]
FilesAfter(given, lines, files, jobs) == LET d == Chosen(given, lines) IN
  IF d = "" THEN files
  ELSE {f \in files : \A j \in jobs : j.target # f[1]} \cup {<<j.target, <<d>> \o j.args>> : j \in jobs}
===============================================================================
