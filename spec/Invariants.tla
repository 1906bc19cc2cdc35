------------------------------ MODULE Invariants ------------------------------
(***************************************************************************)
(* Relations the Unicode Standard guarantees BETWEEN properties, checked   *)
(* on the library's own answers only: the reference data base is not used. *)
(* The machine reads the recorded runs in order; a run is a set of code    *)
(* points with identical answers to every query.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Obs == JsonDeserialize(IOEnv.VTRACE)
NRuns == Len(Obs.lo)
Cols == Obs.cols
NCols == Len(Cols)
ColNo == [c \in {Cols[i] : i \in 1 .. NCols} |-> CHOOSE i \in 1 .. NCols : Cols[i] = c]
VARIABLE k
Chunk == 128
Init == k \in {j \in 1 .. NRuns : j % Chunk = 1}
Next == k < NRuns /\ (k + 1) % Chunk # 1 /\ k' = k + 1
Spec == Init /\ [][Next]_k

Hi(j) == IF j < NRuns THEN Obs.lo[j + 1] - 1 ELSE 1114111
RowOf(j) == Obs.vecs[Obs.vi[j]]
V(j, q) == RowOf(j)[ColNo[q]]
T(j, q) == V(j, q) = "T"
Inside(j, a, b) == a <= Obs.lo[j] /\ Hi(j) <= b
Disjoint(j, a, b) == Hi(j) < a \/ b < Obs.lo[j]
(* run j consists of code points of the interval a..b exactly if p *)
Iff(j, p, a, b) == IF p THEN Inside(j, a, b) ELSE Disjoint(j, a, b)
Letters == {"Lu", "Ll", "Lt", "Lm", "Lo"}
Marks == {"Mn", "Mc", "Me"}
Seps == {"Zs", "Zl", "Zp"}
Puncts == {"Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po"}
Symbols == {"Sm", "Sc", "Sk", "So"}
NonCharsOk(j) ==
  LET planes == {p * 65536 + 65534 : p \in 0 .. 16}
      starts == {64976} \cup planes
      end(s) == IF s = 64976 THEN 65007 ELSE s + 1
  IN IF T(j, "nchar") THEN \E s \in starts : s <= Obs.lo[j] /\ Hi(j) <= end(s)
     ELSE \A s \in starts : Hi(j) < s \/ end(s) < Obs.lo[j]

(* Every law as <<name, holds for run j>>. *)
Laws(j) ==
  LET gc == V(j, "gc") sc == V(j, "sc") dt == V(j, "dt") gcb == V(j, "gcb") hst == V(j, "hst") wb == V(j, "wb")
      age == V(j, "age") blk == V(j, "blk") ccc == V(j, "ccc") bc == V(j, "bc") is(q) == T(j, q)
      surr == Inside(j, 55296, 57343)
  IN <<
  <<"surrogates are exactly gc=Cs", Iff(j, gc = "Cs", 55296, 57343)>>,
  <<"private use is exactly gc=Co", IF gc = "Co" THEN Inside(j, 57344, 63743) \/ Inside(j, 983040, 1048573) \/ Inside(j, 1048576, 1114109)
                                    ELSE Disjoint(j, 57344, 63743) /\ Disjoint(j, 983040, 1048573) /\ Disjoint(j, 1048576, 1114109)>>,
  <<"gc=Cc is exactly the 65 controls", IF gc = "Cc" THEN Inside(j, 0, 31) \/ Inside(j, 127, 159) ELSE Disjoint(j, 0, 31) /\ Disjoint(j, 127, 159)>>,
  <<"noncharacters are the fixed 66", NonCharsOk(j)>>,
  <<"noncharacters are unassigned", is("nchar") => gc = "Cn">>,
  <<"unassigned age means gc=Cn", age = "NA" => gc = "Cn">>,
  <<"gc=Cn means unassigned age or noncharacter", gc = "Cn" => age = "NA" \/ is("nchar")>>,
  <<"noncharacters have an age", is("nchar") => age # "NA">>,
  <<"sc=Zzzz exactly for Cn, Co, Cs", (sc = "Zzzz") = (gc \in {"Cn", "Co", "Cs"})>>,
  <<"no block means unassigned", blk = "Nb" => gc = "Cn">>,
  <<"blocks start at multiples of 16", (j > 1 /\ V(j - 1, "blk") # blk) => Obs.lo[j] % 16 = 0>>,
  <<"combining class only on marks", ccc # "0" => gc \in Marks>>,
  <<"Me and Mn-less bases have class 0", gc = "Me" => ccc = "0">>,
  <<"bidi class of nonspacing marks", gc \in {"Mn", "Me"} => bc \in {"NSM", "L"}>>,
  <<"gcb=EX exactly for Grapheme_Extend or Emoji_Modifier", (gcb = "EX") = (is("gr_ext") \/ is("emod"))>>,
  <<"gcb=ZWJ exactly at 200D", Iff(j, gcb = "ZWJ", 8205, 8205)>>,
  <<"wb=ZWJ exactly at 200D", Iff(j, wb = "ZWJ", 8205, 8205)>>,
  <<"Join_Control exactly at 200C..200D", Iff(j, is("join_c"), 8204, 8205)>>,
  <<"gcb=CR, LF at 0D, 0A", Iff(j, gcb = "CR", 13, 13) /\ Iff(j, gcb = "LF", 10, 10) /\ Iff(j, wb = "CR", 13, 13) /\ Iff(j, wb = "LF", 10, 10)>>,
  <<"gcb=RI exactly for Regional_Indicator", (gcb = "RI") = is("ri") /\ (wb = "RI") = is("ri") /\ Iff(j, is("ri"), 127462, 127487)>>,
  <<"Hangul syllable type = grapheme break class", IF hst = "NA" THEN gcb \notin {"L", "V", "T", "LV", "LVT"} ELSE gcb = hst>>,
  <<"Hangul syllables are AC00..D7A3", Iff(j, hst \in {"LV", "LVT"}, 44032, 55203)>>,
  <<"LV every 28 code points", hst \in {"LV", "LVT"} => (hst = "LV") = ((Obs.lo[j] - 44032) % 28 = 0) /\ (hst = "LV" => Hi(j) = Obs.lo[j])>>,
  <<"Hangul syllables decompose canonically", hst \in {"LV", "LVT"} => dt = "Can" /\ sc = "Hang" /\ gc = "Lo">>,
  <<"syllable types are letters of script Hangul", hst # "NA" => gc = "Lo" /\ sc = "Hang">>,
  <<"XID within ID", (is("xids") => is("ids")) /\ (is("xidc") => is("idc"))>>,
  <<"start within continue", (is("ids") => is("idc")) /\ (is("xids") => is("xidc"))>>,
  <<"identifiers avoid pattern syntax and white space", is("idc") => ~is("pat_syn") /\ ~is("pat_ws")>>,
  <<"pattern syntax is not pattern white space", ~(is("pat_syn") /\ is("pat_ws"))>>,
  <<"letters, letter numbers start identifiers", gc \in Letters \cup {"Nl"} => is("ids") \/ is("pat_syn")>>,
  <<"other ID_Start, ID_Continue", (is("oids") => is("ids")) /\ (is("oidc") => is("idc"))>>,
  <<"Lowercase and Uppercase are disjoint", ~(is("lower") /\ is("upper"))>>,
  <<"Cased = Lowercase, Uppercase or Lt", is("cased") = (is("lower") \/ is("upper") \/ gc = "Lt")>>,
  <<"case letters", (gc = "Ll" => is("lower")) /\ (gc = "Lu" => is("upper"))>>,
  <<"other case properties are extensions", (is("olower") => gc # "Ll" /\ is("lower")) /\ (is("oupper") => gc # "Lu" /\ is("upper"))>>,
  <<"letters are alphabetic", gc \in Letters \cup {"Nl"} => is("alpha")>>,
  <<"cased implies alphabetic", is("cased") => is("alpha")>>,
  <<"other extensions are included", (is("oalpha") => is("alpha")) /\ (is("omath") => is("math")) /\ (is("ogr_ext") => is("gr_ext"))>>,
  <<"mathematical symbols", gc = "Sm" => is("math")>>,
  <<"nonspacing marks extend graphemes", gc \in {"Mn", "Me"} => is("gr_ext")>>,
  <<"Grapheme_Extend is marks or ZWNJ or tags or half-width marks", is("gr_ext") => gc \in Marks \cup {"Cf", "Lm"}>>,
  <<"InCB=Extend is non-spacing or ZWJ", V(j, "incb") = "Extend" => gcb \in {"EX", "ZWJ"} /\ (ccc # "0" \/ gcb = "ZWJ")>>,
  <<"InCB=Linker is a virama, Consonant a consonant", /\ (V(j, "incb") = "Linker" => V(j, "insc") = "Virama" /\ ccc = "9")
                                                       /\ (V(j, "incb") = "Consonant" => V(j, "insc") = "Consonant" /\ gc = "Lo")>>,
  <<"hex digits", (is("ahex") => is("hex")) /\ (is("hex") => gc \in {"Nd", "Lu", "Ll"})>>,
  <<"ASCII hex digits are 0-9 A-F a-f", IF is("ahex") THEN Inside(j, 48, 57) \/ Inside(j, 65, 70) \/ Inside(j, 97, 102)
                                        ELSE Disjoint(j, 48, 57) /\ Disjoint(j, 65, 70) /\ Disjoint(j, 97, 102)>>,
  <<"unified ideographs are ideographic letters", is("uideo") => is("ideo") /\ gc = "Lo" /\ sc = "Hani" /\ ~is("idst")>>,
  <<"ideographic = letters or letter numbers", is("ideo") => gc \in {"Lo", "Nl", "Mn"}>>,
  <<"ideographic description operators are symbols", (is("idsb") \/ is("idst")) => gc = "So">>,
  <<"radicals are symbols of script Han", is("radical") => gc = "So" /\ sc = "Hani">>,
  <<"quotation marks are punctuation or symbols", is("qmark") => gc \in Puncts>>,
  <<"sentence terminals are terminals", is("sterm") => is("term")>>,
  <<"terminals are punctuation-like", is("term") => gc \in Puncts \cup {"So", "Lm"}>>,
  <<"dashes", (is("dash") => gc \in {"Pd", "Po", "Sm"}) /\ (gc = "Pd" => is("dash") \/ age = "NA")>>,
  <<"hyphens", is("hyphen") => gc \in {"Pd", "Pc", "Po", "Cf"}>>,
  <<"separators are white space", gc \in Seps => is("wspace")>>,
  <<"white space is separators and controls", is("wspace") => gc \in Seps \cup {"Cc"}>>,
  <<"bidi controls are format characters", is("bidi_c") => gc = "Cf" /\ is("di")>>,
  <<"line and paragraph separators", Iff(j, gc = "Zl", 8232, 8232) /\ Iff(j, gc = "Zp", 8233, 8233)>>,
  <<"variation selectors are ignorable", is("vs") => is("di") /\ gcb = "EX" /\ gc = "Mn">>,
  <<"default ignorables", (is("odi") => is("di")) /\ (is("di") => gc \in {"Cf", "Mn", "Lo", "Cn"})>>,
  <<"white space is not ignorable", ~(is("wspace") /\ is("di"))>>,
  <<"prepended concatenation marks are format", is("pcm") => gc = "Cf" /\ gcb = "PP" /\ ~is("di")>>,
  <<"logical order exceptions are letters", is("loe") => gc = "Lo">>,
  <<"soft dotted are lowercase or symbols", is("sd") => gc \in {"Ll", "Lm"}>>,
  <<"emoji containment", (is("emod") \/ is("ebase") \/ is("epres")) => is("emoji")>>,
  <<"emoji components", is("ri") => is("ecomp") /\ is("emoji") /\ is("epres")>>,
  <<"modifiers are components, 1F3FB..1F3FF", Iff(j, is("emod"), 127995, 127999) /\ (is("emod") => is("ecomp") /\ ~is("ebase") /\ gc = "Sk")>>,
  <<"an emoji is a component or pictographic", is("emoji") => is("ecomp") \/ is("ext_pict")>>,
  <<"pictographic characters are never extenders or controls", is("ext_pict") => gcb = "XX">>,
  <<"Decomposition_Type exactly with a mapping", (dt = "None") = is("dm_empty") \/ surr>>,
  <<"canonical mapping exactly if NFD changes the character", surr \/ (dt = "Can") = ~is("nfd_same")>>,
  <<"a mapping exactly if NFKD changes the character", surr \/ (dt # "None") = ~is("nfkd_same")>>,
  <<"NFC changes exactly the excluded characters", surr \/ is("comp_ex") = ~is("nfc_same")>>,
  <<"NFKC changes every compatibility character, nothing without a mapping", surr \/ ((~is("nfkc_same") => dt # "None") /\ (is("nfkc_same") => dt \in {"None", "Can"} /\ ~is("comp_ex")))>>,
  <<"composition exclusions", (is("ce") => is("comp_ex")) /\ (is("comp_ex") => dt = "Can")>>,
  <<"unassigned code points have no behaviour", gc = "Cn" => ccc = "0" /\ dt = "None" /\ ~is("idc") /\ ~is("alpha") /\ ~is("emoji") /\ gcb \in {"XX", "CN"}>>,
  <<"named exactly if graphic or format", is("na_empty") = (gc \in {"Cc", "Cs", "Co", "Cn"})>>,
  <<"controls break graphemes", gc \in {"Cc", "Zl", "Zp"} => gcb \in {"CN", "CR", "LF"}>>,
  <<"decimal digits are word numeric", gc = "Nd" => wb = "NU" \/ is("emoji") \/ wb = "XX">>,
  <<"connector punctuation extends words", gc = "Pc" => wb = "EX">>,
  <<"word break ALetter and Hebrew are alphabetic or marked so", wb = "HL" => sc = "Hebr" /\ gc = "Lo">>,
  <<"word and grapheme break agree on format controls", (wb = "FO" => gc = "Cf" \/ is("di")) /\ (wb = "NL" => gc \in {"Cc", "Zl", "Zp"})>>,
  <<"word Extend is marks and their like", wb = "Extend" => gc \in Marks \cup {"Cf", "Sk", "Lm"}>>,
  <<"digits of bidi class EN, AN", bc = "AN" => gc \in {"Nd", "No", "Cf", "Sm", "So", "Po"}>>,
  <<"right-to-left letters of Hebrew and Arabic", /\ ((sc = "Hebr" /\ gc = "Lo") => bc = "R")
                                                 /\ ((sc = "Arab" /\ gc = "Lo") => bc = "AL")>>,
  <<"bidi boundary neutrals", bc = "BN" => gc \in {"Cc", "Cf", "Cn"}>>
  >>

BadLaws(j) == LET l == Laws(j) IN {l[i][1] : i \in {x \in 1 .. Len(l) : ~l[x][2]}}
Conforms ==
  \/ BadLaws(k) = {}
  \/ /\ PrintT("MISMATCH " \o ToJson([laws |-> BadLaws(k), lo |-> Obs.lo[k], hi |-> Hi(k),
           answers |-> [q \in {"gc", "sc", "ccc", "gcb", "wb", "bc", "age", "blk", "dt", "hst", "insc", "incb"} |-> V(k, q)]]))
     /\ FALSE
=============================================================================
