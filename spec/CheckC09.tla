------------------------------ MODULE CheckC09 ------------------------------
(* inputs: [site, K, L, g (arguments), one (at most one defect), fine (what   *)
(*          the plan says), ok (accepted), finite, how]                       *)
(* params: [cls, p, v, ok]   choices: [cls, p, valid, v, ok]                  *)
EXTENDS JudgeBase, Inputs
InputsVerdict(o) ==
  LET v == Valid(o) IN
  IF o.one /\ v # o.fine THEN "driver: plan and data disagree on " \o o.site
  ELSE IF v /\ ~o.ok THEN o.site \o ": rejected data that meet every requirement: " \o o.how
  ELSE IF v /\ ~o.finite THEN o.site \o ": no finite answer on data that meet every requirement"
  ELSE IF ~v /\ o.ok THEN o.site \o ": accepted malformed data: " \o o.how
  ELSE "ok"
ParamVerdict(o) ==
  IF InRange(o.p, o.v) /\ ~o.ok THEN o.cls \o "." \o o.p.name \o ": rejected a documented value: " \o o.how
  ELSE IF ~InRange(o.p, o.v) /\ o.ok THEN o.cls \o "." \o o.p.name \o ": accepted a value outside its range: " \o o.how
  ELSE "ok"
ChoiceVerdict(o) == IF o.valid = o.ok THEN "ok" ELSE o.cls \o "." \o o.p \o (IF o.valid THEN ": rejected " ELSE ": accepted ") \o o.how
Verdict(o) == CASE o.kind = "inputs" -> InputsVerdict(o) [] o.kind = "params" -> ParamVerdict(o) [] OTHER -> ChoiceVerdict(o)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
