------------------------------ MODULE CheckC24 ------------------------------
(* Record: [events, err]: all calls of several lives of the same component    *)
(* kind (and of strangers) under some schedule, the first life having run     *)
(* alone.  before/after: digests of everything the caller handed in so far.   *)
(* held: earlier results are as they were when returned.                      *)
EXTENDS JudgeBase, Repro
EventVerdict(o, e) ==
  IF ~Untouched(e) THEN e.kind \o "." \o e.name \o ": the call modified data of its caller (" \o e.what \o ")"
  ELSE IF ~e.held THEN e.kind \o "." \o e.name \o ": the call changed a result returned earlier"
  ELSE IF e.fail # "" THEN e.kind \o "." \o e.name \o ": raised on valid data: " \o e.fail
  ELSE IF \E j \in 1 .. Len(o.events) : ~Alike(e, o.events[j]) THEN e.kind \o "." \o e.name \o ": same seed and calls, another result"
  ELSE "ok"
Verdict(o) == FirstBad([i \in 1 .. Len(o.events) |-> EventVerdict(o, o.events[i])])
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
