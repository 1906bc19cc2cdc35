-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* The Name property (Unicode Standard 4.8): listed names, rule NR1 for    *)
(* Hangul syllables, rule NR2 for ranged names, otherwise empty.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
DataDir == IOEnv.VDATA
NameData == JsonDeserialize(DataDir \o "/names.json")
Listed == NameData.cp            \* ascending
ListedName == NameData.name
NL == Len(Listed)
Ranges == NameData.ranges        \* [lo, hi, prefix], ascending

RECURSIVE FindIn(_, _, _, _)
FindIn(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF s[m] <= x THEN FindIn(s, x, m, hi) ELSE FindIn(s, x, lo, m - 1)
Before(c) == IF c < Listed[1] THEN 0 ELSE FindIn(Listed, c, 1, NL)   \* listed code points <= c

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE HexN(_, _)
HexN(x, n) == IF n = 0 /\ x = 0 THEN "" ELSE HexN(x \div 16, IF n > 0 THEN n - 1 ELSE 0) \o HexDigit[(x % 16) + 1]
Hex4(c) == HexN(c, 4)

(* NR1: Jamo_Short_Name of the parts (Jamo.txt) *)
JL == <<"G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H">>
JV == <<"A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I">>
JT == <<"", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS",
        "NG", "J", "C", "K", "T", "P", "H">>
IsSyllable(c) == c \in 44032 .. 55203
SyllableName(c) == LET s == c - 44032 IN
  "HANGUL SYLLABLE " \o JL[(s \div 588) + 1] \o JV[((s % 588) \div 28) + 1] \o JT[(s % 28) + 1]

RangeOf(c) == {r \in 1 .. Len(Ranges) : Ranges[r].lo <= c /\ c <= Ranges[r].hi}
NameOf(c) ==
  IF IsSyllable(c) THEN SyllableName(c)
  ELSE IF RangeOf(c) # {} THEN LET r == CHOOSE r \in RangeOf(c) : TRUE IN Ranges[r].prefix \o Hex4(c)
  ELSE LET i == Before(c) IN IF i > 0 /\ Listed[i] = c THEN ListedName[i] ELSE ""
Overlaps(lo, hi, a, b) == lo <= b /\ a <= hi
(* no code point of lo..hi has a name *)
Nameless(lo, hi) == /\ Before(hi) = Before(lo - 1)
                    /\ ~Overlaps(lo, hi, 44032, 55203)
                    /\ \A r \in 1 .. Len(Ranges) : ~Overlaps(lo, hi, Ranges[r].lo, Ranges[r].hi)
=============================================================================
