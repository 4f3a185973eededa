------------------------------ MODULE JudgeBase ------------------------------
(* Common frame of the modules that judge observations of the real code:      *)
(* each defines Verdict(obs) \in STRING, "ok" or the name of the broken       *)
(* clause; TLC evaluates it on every record of the file named by OBS.         *)
EXTENDS Num, Json, IOUtils, TLC, Sequences, Integers, FiniteSets, SequencesExt
VARIABLE jdone
JInit == jdone = 0
JNext == FALSE /\ jdone' = jdone
Obs == JsonDeserialize(IOEnv.OBS)
\* first element of a sequence of verdicts that is not "ok"
FirstBad(s) == IF \A i \in 1 .. Len(s) : s[i] = "ok" THEN "ok" ELSE s[CHOOSE i \in 1 .. Len(s) : s[i] # "ok"]
Has(r, f) == f \in DOMAIN r
Tol == "1/1000000000"
=============================================================================
