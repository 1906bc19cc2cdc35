// Generated once by tools/gen_idents.py from spec/data/aliases.json: identifiers of the public
// property enumerations, spelled out so that observations do not depend on Debug output.
#![allow(unreachable_patterns)]
use seshat::unicode::props::*;

macro_rules! idents { ($t:ident: $($v:ident)*) => {
    impl Ident for $t {
        fn ident(&self) -> &'static str { match self { $($t::$v => stringify!($v),)* _ => "OTHER" } }
        fn all() -> Vec<$t> { vec![$($t::$v),*] }
    }
} }

pub trait Ident: Sized { fn ident(&self) -> &'static str; fn all() -> Vec<Self>; }

idents!(Gc: Cc Cf Cn Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps Sc Sk Sm So Zl Zp Zs);
idents!(Gcb: CN CR EB EBG EM EX GAZ L LF LV LVT PP RI SM T V XX ZWJ);
idents!(Hst: L LV LVT NA T V);
idents!(Bc: AL AN B BN CS EN ES ET FSI L LRE LRI LRO NSM ON PDF PDI R RLE RLI RLO S WS);
idents!(Dt: Can Com Enc Fin Font Fra Init Iso Med Nar Nb None Sml Sqr Sub Sup Vert Wide);
idents!(Blk: Adlam AegeanNumbers Ahom Alchemical AlphabeticPf AnatolianHieroglyphs AncientGreekMusic AncientGreekNumbers AncientSymbols Arabic ArabicExtA ArabicExtB ArabicExtC ArabicMath ArabicPfA ArabicPfB ArabicSup Armenian Arrows Ascii Avestan Balinese Bamum BamumSup BassaVah Batak Bengali Bhaiksuki BlockElements Bopomofo BopomofoExt BoxDrawing Brahmi Braille Buginese Buhid ByzantineMusic Carian CaucasianAlbanian Chakma Cham Cherokee CherokeeSup ChessSymbols Chorasmian Cjk CjkCompat CjkCompatForms CjkCompatIdeographs CjkCompatIdeographsSup CjkExtA CjkExtB CjkExtC CjkExtD CjkExtE CjkExtF CjkExtG CjkExtH CjkExtI CjkRadicalsSup CjkStrokes CjkSymbols CompatJamo ControlPictures Coptic CopticEpactNumbers CountingRod Cuneiform CuneiformNumbers CurrencySymbols CypriotSyllabary CyproMinoan Cyrillic CyrillicExtA CyrillicExtB CyrillicExtC CyrillicExtD CyrillicSup Deseret Devanagari DevanagariExt DevanagariExtA Diacriticals DiacriticalsExt DiacriticalsForSymbols DiacriticalsSup Dingbats DivesAkuru Dogra Domino Duployan EarlyDynasticCuneiform EgyptianHieroglyphFormatControls EgyptianHieroglyphs Elbasan Elymaic Emoticons EnclosedAlphanum EnclosedAlphanumSup EnclosedCjk EnclosedIdeographicSup Ethiopic EthiopicExt EthiopicExtA EthiopicExtB EthiopicSup GeometricShapes GeometricShapesExt Georgian GeorgianExt GeorgianSup Glagolitic GlagoliticSup Gothic Grantha Greek GreekExt Gujarati GunjalaGondi Gurmukhi HalfAndFullForms HalfMarks Hangul HanifiRohingya Hanunoo Hatran Hebrew HighPuSurrogates HighSurrogates Hiragana Idc IdeographicSymbols ImperialAramaic IndicNumberForms IndicSiyaqNumbers InscriptionalPahlavi InscriptionalParthian IpaExt Jamo JamoExtA JamoExtB Javanese Kaithi KaktovikNumerals KanaExtA KanaExtB KanaSup Kanbun Kangxi Kannada Katakana KatakanaExt Kawi KayahLi Kharoshthi KhitanSmallScript Khmer KhmerSymbols Khojki Khudawadi Lao Latin1Sup LatinExtA LatinExtAdditional LatinExtB LatinExtC LatinExtD LatinExtE LatinExtF LatinExtG Lepcha LetterlikeSymbols Limbu LinearA LinearBIdeograms LinearBSyllabary Lisu LisuSup LowSurrogates Lycian Lydian Mahajani Mahjong Makasar Malayalam Mandaic Manichaean Marchen MasaramGondi MathAlphanum MathOperators MayanNumerals Medefaidrin MeeteiMayek MeeteiMayekExt MendeKikakui MeroiticCursive MeroiticHieroglyphs Miao MiscArrows MiscMathSymbolsA MiscMathSymbolsB MiscPictographs MiscSymbols MiscTechnical Modi ModifierLetters ModifierToneLetters Mongolian MongolianSup Mro Multani Music Myanmar MyanmarExtA MyanmarExtB Nabataean NagMundari Nandinagari Nb NewTaiLue Newa Nko NumberForms Nushu NyiakengPuachueHmong Ocr Ogham OlChiki OldHungarian OldItalic OldNorthArabian OldPermic OldPersian OldSogdian OldSouthArabian OldTurkic OldUyghur Oriya OrnamentalDingbats Osage Osmanya OttomanSiyaqNumbers PahawhHmong Palmyrene PauCinHau PhagsPa Phaistos Phoenician PhoneticExt PhoneticExtSup PlayingCards PsalterPahlavi Pua Punctuation Rejang Rumi Runic Samaritan Saurashtra Sharada Shavian ShorthandFormatControls Siddham Sinhala SinhalaArchaicNumbers SmallForms SmallKanaExt Sogdian SoraSompeng Soyombo Specials Sundanese SundaneseSup SupArrowsA SupArrowsB SupArrowsC SupMathOperators SupPuaA SupPuaB SupPunctuation SupSymbolsAndPictographs SuperAndSub SuttonSignwriting SylotiNagri SymbolsAndPictographsExtA SymbolsForLegacyComputing Syriac SyriacSup Tagalog Tagbanwa Tags TaiLe TaiTham TaiViet TaiXuanJing Takri Tamil TamilSup Tangsa Tangut TangutComponents TangutSup Telugu Thaana Thai Tibetan Tifinagh Tirhuta Toto TransportAndMap Ucas UcasExt UcasExtA Ugaritic Vai VedicExt VerticalForms Vithkuqi Vs VsSup Wancho WarangCiti Yezidi YiRadicals YiSyllables Yijing ZanabazarSquare ZnamennyMusic);
idents!(Sc: Adlm Aghb Ahom Arab Armi Armn Avst Bali Bamu Bass Batk Beng Bhks Bopo Brah Brai Bugi Buhd Cakm Cans Cari Cham Cher Chrs Copt Cpmn Cprt Cyrl Deva Diak Dogr Dsrt Dupl Egyp Elba Elym Ethi Geor Glag Gong Gonm Goth Gran Grek Gujr Guru Hang Hani Hano Hatr Hebr Hira Hluw Hmng Hmnp Hrkt Hung Ital Java Kali Kana Kawi Khar Khmr Khoj Kits Knda Kthi Lana Laoo Latn Lepc Limb Lina Linb Lisu Lyci Lydi Mahj Maka Mand Mani Marc Medf Mend Merc Mero Mlym Modi Mong Mroo Mtei Mult Mymr Nagm Nand Narb Nbat Newa Nkoo Nshu Ogam Olck Orkh Orya Osge Osma Ougr Palm Pauc Perm Phag Phli Phlp Phnx Plrd Prti Rjng Rohg Runr Samr Sarb Saur Sgnw Shaw Shrd Sidd Sind Sinh Sogd Sogo Sora Soyo Sund Sylo Syrc Tagb Takr Tale Talu Taml Tang Tavt Telu Tfng Tglg Thaa Thai Tibt Tirh Tnsa Toto Ugar Vaii Vith Wara Wcho Xpeo Xsux Yezi Yiii Zanb Zinh Zyyy Zzzz);
idents!(Age: V1_1 V2_0 V2_1 V3_0 V3_1 V3_2 V4_0 V4_1 V5_0 V5_1 V5_2 V6_0 V6_1 V6_2 V6_3 V7_0 V8_0 V9_0 V10_0 V11_0 V12_0 V12_1 V13_0 V14_0 V15_0 V15_1 NA);
idents!(Wb: CR DQ EB EBG EM EX Extend FO GAZ HL KA LE LF MB ML MN NL NU RI SQ WSegSpace XX ZWJ);
idents!(Insc: Avagraha Bindu Brahmi_Joining_Number Cantillation_Mark Consonant Consonant_Dead Consonant_Final Consonant_Head_Letter Consonant_Initial_Postfixed Consonant_Killer Consonant_Medial Consonant_Placeholder Consonant_Preceding_Repha Consonant_Prefixed Consonant_Subjoined Consonant_Succeeding_Repha Consonant_With_Stacker Gemination_Mark Invisible_Stacker Joiner Modifying_Letter Non_Joiner Nukta Number Number_Joiner Other Pure_Killer Register_Shifter Syllable_Modifier Tone_Letter Tone_Mark Virama Visarga Vowel Vowel_Dependent Vowel_Independent);
idents!(Incb: Consonant Extend Linker None);
idents!(BinaryProperty: N Y);
idents!(Ccc: NR OV HANR NK KV VR CCC10 CCC11 CCC12 CCC13 CCC14 CCC15 CCC16 CCC17 CCC18 CCC19 CCC20 CCC21 CCC22 CCC23 CCC24 CCC25 CCC26 CCC27 CCC28 CCC29 CCC30 CCC31 CCC32 CCC33 CCC34 CCC35 CCC36 CCC84 CCC91 CCC103 CCC107 CCC118 CCC122 CCC129 CCC130 CCC132 CCC133 ATBL ATB ATA ATAR BL B BR L R AL A AR DB DA IS);
