---------------------------- MODULE DataScriptTrace ---------------------------
(* Runs of the real script, one after another in one directory, read by the      *)
(* machine: every recorded call of a converter must be a step it can take, and   *)
(* it must end with the recorded files.  And the files the other scripts of the  *)
(* generator open are files it writes.                                           *)
EXTENDS DataScript, Json, IOUtils
Trace == JsonDeserialize(IOEnv.VTRACE)
H == Trace.histories
N == Len(H)
Pairs(q) == {q[i] : i \in 1 .. Len(q)}
VARIABLES h, r, c, s, ok
vars == <<h, r, c, s, ok>>
Run == H[h].runs[r]
Init == h \in 1 .. N /\ r = 1 /\ c = 0 /\ ok = TRUE /\ s = Start(H[h].runs[1].given, H[h].runs[1].file, Pairs(H[h].before))
JobOf(call) == {j \in s.todo : <<s.dir>> \o j.args = call}
Reading == /\ CanRead(s) /\ s' = ReadLine(s) /\ UNCHANGED <<h, r, c, ok>>
Deciding == /\ CanDecide(s) /\ s' = Decide(s, Jobs15) /\ UNCHANGED <<h, r, c, ok>>
Calling == /\ s.phase \in {"converting", "refused"} /\ c < Len(Run.calls) /\ c' = c + 1
           /\ LET S == JobOf(Run.calls[c + 1]) IN
                IF S = {} THEN ok' = FALSE /\ s' = s ELSE ok' = ok /\ s' = Convert(s, CHOOSE j \in S : TRUE)
           /\ UNCHANGED <<h, r>>
NextRun == /\ s.phase \in {"converting", "refused"} /\ c = Len(Run.calls) /\ r < Len(H[h].runs)
           /\ r' = r + 1 /\ c' = 0 /\ h' = h /\ ok' = ok
           /\ s' = Start(H[h].runs[r + 1].given, H[h].runs[r + 1].file, s.files)
Next == Reading \/ Deciding \/ Calling \/ NextRun
Spec == Init /\ [][Next]_vars
Say(x) == PrintT("MISMATCH " \o ToJson(x)) /\ FALSE
Case == [given |-> Run.given, file |-> Run.file, exit |-> Run.exit, said |-> Run.text, run |-> r]
Conforms ==
  /\ ok \/ Say([case |-> Case, call |-> Run.calls[c], todo |-> {j.args : j \in s.todo}])
  /\ (ok /\ s.phase \in {"converting", "refused"} /\ c = Len(Run.calls)) =>
       \/ (Ended(s) /\ Pairs(Run.after) = s.files /\ (Run.exit = 0) = (s.phase = "converting") /\ (s.phase = "refused" => Run.told)) = TRUE
       \/ Say([case |-> Case, notconverted |-> {j.args : j \in s.todo}, missing |-> s.files \ Pairs(Run.after), unexpected |-> Pairs(Run.after) \ s.files])
Written == {"15.1.0/" \o j.target : j \in Jobs15}
Closed == (h = 1 /\ r = 1 /\ c = 0) =>
  \A i \in 1 .. Len(Trace.reads) : LET R == Trace.reads[i] IN
     (R[2] = 0 /\ Pairs(R[3]) \subseteq Written) \/ Say([script |-> R[1], exit |-> R[2], reads |-> Pairs(R[3]) \ Written])
===============================================================================
