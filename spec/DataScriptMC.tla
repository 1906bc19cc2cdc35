----------------------------- MODULE DataScriptMC -----------------------------
(* Whatever the .env file says, whatever was there, in every order of the jobs  *)
(* and over two runs: the machine ends with exactly the declared files.         *)
EXTENDS DataScript
CONSTANT MaxLines
Jobs == {J("p", "p.json"), J("q", "q.json"), [args |-> <<"--missing", "q">>, target |-> "q.missing.json"]}
Line == {<<"set", Key, "a">>, <<"set", Key, "b">>, <<"set", "OTHER", "c">>, <<"comment", "", "">>, <<"blank", "", "">>}
Old == { {}, {<<"own.json", <<"?">>>>}, {<<"p.json", <<"?">>>>, <<"own.json", <<"?">>>>} }
VARIABLES given, lines, before, s, run
vars == <<given, lines, before, s, run>>
Files == UNION {[1 .. n -> Line] : n \in 0 .. MaxLines}
Begin(g, l, b) == given' = g /\ lines' = l /\ before' = b /\ s' = Start(g, l, b)
Init == /\ given \in {"", "a"} /\ lines \in Files /\ before \in Old /\ s = Start(given, lines, before) /\ run = 1
Next == \/ CanRead(s) /\ s' = ReadLine(s) /\ UNCHANGED <<given, lines, before, run>>
        \/ CanDecide(s) /\ s' = Decide(s, Jobs) /\ UNCHANGED <<given, lines, before, run>>
        \/ \E j \in Jobs : CanConvert(s, j) /\ s' = Convert(s, j) /\ UNCHANGED <<given, lines, before, run>>
        \/ Ended(s) /\ run = 1 /\ run' = 2 /\ (\E g \in {"", "b"} : Begin(g, lines, s.files))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == Ended(s) => s.files = FilesAfter(given, lines, before, Jobs) /\ s.dir = Chosen(given, lines)
OthersKept == \A f \in before : (\A j \in Jobs : j.target # f[1]) => f \in s.files
OnePerTarget == \A f, g \in s.files : f[1] = g[1] => f = g
NothingYet == s.phase \in {"reading", "refused"} => s.files = before
Ends == <>(run = 2 /\ Ended(s))
===============================================================================
