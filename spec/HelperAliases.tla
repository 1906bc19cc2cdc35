----------------------------- MODULE HelperAliases -----------------------------
(***************************************************************************)
(* The helper generators on any alias data.  A short alias is read one     *)
(* character at a time; the identifier of its enumeration value has each   *)
(* run of letters capitalised and the underscores dropped.  The compiled   *)
(* output declares exactly the identifiers of the data, and its name       *)
(* function answers with the two aliases of the value.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
(* sets: <<[enum, aliases: <<[chars, abbr, full]>>, rows: <<[ident, abbr, full]>>]>> *)
Sets == JsonDeserialize(IOEnv.VTRACE).sets
Lo == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Hi == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
UpperOf == [c \in {Lo[i] : i \in 1 .. 26} \cup {Hi[i] : i \in 1 .. 26} |-> Hi[CHOOSE i \in 1 .. 26 : c \in {Lo[i], Hi[i]}]]
LowerOf == [c \in {Lo[i] : i \in 1 .. 26} \cup {Hi[i] : i \in 1 .. 26} |-> Lo[CHOOSE i \in 1 .. 26 : c \in {Lo[i], Hi[i]}]]
Letters == DOMAIN UpperOf

VARIABLES k,      \* the data set
          i,      \* the alias
          p,      \* characters of it read
          ident,  \* identifier so far
          inword  \* the last character was a letter
vars == <<k, i, p, ident, inword>>
Chars == Sets[k].aliases[i].chars
Start == p = 0 /\ ident = "" /\ inword = FALSE
Init == k = 1 /\ i = 1 /\ Start
Read == /\ p < Len(Chars)
        /\ LET c == Chars[p + 1] IN
           /\ ident' = IF c = "_" THEN ident
                       ELSE ident \o (IF c \notin Letters THEN c ELSE IF inword THEN LowerOf[c] ELSE UpperOf[c])
           /\ inword' = (c \in Letters)
        /\ p' = p + 1
        /\ UNCHANGED <<k, i>>
NextAlias == /\ p = Len(Chars)
             /\ \/ i < Len(Sets[k].aliases) /\ i' = i + 1 /\ k' = k
                \/ i = Len(Sets[k].aliases) /\ k < Len(Sets) /\ k' = k + 1 /\ i' = 1
             /\ p' = 0 /\ ident' = "" /\ inword' = FALSE
Next == Read \/ NextAlias
Spec == Init /\ [][Next]_vars

(* The row of the compiled output that answers with this alias is the value of that name. *)
Conforms ==
  p = Len(Chars) =>
    LET a == Sets[k].aliases[i]
        R == Sets[k].rows
        hits == {j \in 1 .. Len(R) : R[j].abbr = a.abbr \/ R[j].ident = ident} IN
    \/ \E j \in hits : hits = {j} /\ R[j] = [ident |-> ident, abbr |-> a.abbr, full |-> a.full]
    \/ /\ PrintT("MISMATCH " \o ToJson([set |-> k, enum |-> Sets[k].enum, alias |-> a.abbr, full |-> a.full,
                                        expected |-> ident, printed |-> {R[j] : j \in hits}]))
       /\ FALSE
(* and there are no others *)
Count ==
  (i = 1 /\ p = 0) =>
    \/ Len(Sets[k].rows) = Len(Sets[k].aliases)
    \/ /\ PrintT("MISMATCH " \o ToJson([set |-> k, enum |-> Sets[k].enum, values |-> Len(Sets[k].rows), aliases |-> Len(Sets[k].aliases)]))
       /\ FALSE
===============================================================================
