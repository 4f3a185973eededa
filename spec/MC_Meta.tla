------------------------------- MODULE MC_Meta -------------------------------
(* Evaluators over up to three estimators and histories of calls.  The        *)
(* evaluator is modelled as the code does it, as a table of inputs per        *)
(* estimator filled argument by argument; the invariants relate its answers   *)
(* to each estimator called alone.                                            *)
EXTENDS Meta, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxCalls, Names, Big
VARIABLES ests, hist
Log == [reward |-> "7", pscore |-> "11"]
Est(n) == [name |-> n, base |-> IF n = "a" THEN "100" ELSE IF n = "ab" THEN "200" ELSE "300",
           coef |-> <<[f |-> "reward", c |-> "1"], [f |-> "x", c |-> IF n = "a" THEN "1000" ELSE "2000"], [f |-> "y", c |-> "1/3"], [f |-> "pscore", c |-> "5"]>>]
TokOf(arg, n) == IF arg = "x" THEN (IF n = "a" THEN "13" ELSE IF n = "ab" THEN "17" ELSE "19") ELSE (IF n = "a" THEN "23" ELSE IF n = "ab" THEN "29" ELSE "31")
ArgChoices(arg) == {[mode |-> "none"], [mode |-> "all", v |-> IF arg = "x" THEN "37" ELSE "41"]} \cup
   {[mode |-> "dict", d |-> [n \in S |-> TokOf(arg, n)]] : S \in IF Big THEN SUBSET (Names \cup {"zz"}) ELSE {S \in SUBSET (Names \cup {"zz"}) : Cardinality(S) <= 2}}
Calls == {[x |-> x, y |-> y] : x \in ArgChoices("x"), y \in ArgChoices("y")}
\* the evaluator: fill the table, then ask every estimator in turn
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
RECURSIVE Fill(_, _, _)
Fill(table, names, args) ==
  IF names = <<>> THEN table
  ELSE LET n == Head(names) IN Fill([table EXCEPT ![n] = [f \in DOMAIN Log \cup DOMAIN args |-> IF f \in DOMAIN args THEN Routed(args[f], n) ELSE Log[f]]], Tail(names), args)
Answer(es, args) ==
  LET names == [k \in 1 .. Len(es) |-> es[k].name]
      t == Fill([n \in {es[k].name : k \in 1 .. Len(es)} |-> <<>>], names, args)
  IN [k \in 1 .. Len(es) |-> [name |-> es[k].name, v |-> RAdd(es[k].base, RSum([j \in 1 .. Len(es[k].coef) |-> RMul(es[k].coef[j].c, Tok(t[es[k].name][es[k].coef[j].f]))]))]]
Init == /\ hist = <<>>
        /\ \E S \in (SUBSET Names) \ {{}} : \E s \in SetToSeqs(S) : ests = [k \in 1 .. Len(s) |-> Est(s[k])]
Next == /\ Len(hist) < MaxCalls
        /\ \E c \in (IF Len(hist) = 0 \/ Big THEN Calls ELSE {[x |-> [mode |-> "none"], y |-> [mode |-> "all", v |-> "41"]]}) :
              hist' = Append(hist, [args |-> c, ans |-> Answer(ests, c)])
        /\ UNCHANGED ests
Lst == hist[Len(hist)]
\* every answer is the estimator's own value on its own inputs
OwnValue == hist # <<>> => Lst.ans = Values(ests, Log, Lst.args)
\* ... whatever other estimators are evaluated alongside and in whatever order
Alone == hist # <<>> => \A k \in 1 .. Len(ests) : Lst.ans[k] = Answer(<<ests[k]>>, Lst.args)[1]
OrderFree == hist # <<>> => SetOf(Lst.ans) = SetOf(Answer(Reverse(ests), Lst.args))
\* ... and whatever was asked before
HistoryFree == hist # <<>> => \A j \in 1 .. Len(hist) : hist[j].ans = Answer(ests, hist[j].args)
\* a name absent from a mapping gets no input; names of unknown estimators are ignored
Missing == hist # <<>> => \A k \in 1 .. Len(ests) : (Lst.args.x.mode = "dict" /\ ests[k].name \notin DOMAIN Lst.args.x.d) =>
   Lst.ans[k].v = ValueOf(ests[k], Log, [Lst.args EXCEPT !.x = [mode |-> "none"]])
ASSUME Errors == \A v \in {"0", "3", "-2"} : \A g \in {"1", "-4"} : RLe("0", SquaredError(v, g)) /\ RLe("0", RelativeError(v, g)) /\ (REq(RelativeError(v, g), "0") <=> REq(v, g))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Len(hist) = 1 => Serialize(ToJson([ests |-> [k \in 1 .. Len(ests) |-> ests[k].name], args |-> Lst.args]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
