----------------------------- MODULE MC_Inputs -----------------------------
(* All ways of spoiling one or two arguments of each interface, at a first,   *)
(* middle or last row, and the harmless variations.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxDefects
\* ------------------------------------------------ arguments of the interfaces
OPE(k) == {<<"action_dist", k>>, <<"position", "slots">>}
LOGS(k) == OPE(k) \cup {<<"action", "index">>, <<"reward", "real">>}
LOG == LOGS("dist")
MLOG == LOGS("pinned")
PS == {<<"pscore", "pos">>}
Q == {<<"q", "model">>}
SLATE == {<<"slate_id", "id">>, <<"position", "slot">>, <<"reward", "real">>}
CTX == {<<"context", "context">>, <<"action", "index">>}
Args(s) ==
  CASE s = "dm" -> OPE("pinned") \cup Q [] s = "rm" -> LOG [] s = "ipw" -> LOG \cup PS [] s = "dr" -> MLOG \cup PS \cup Q
    [] s = "bipw" -> LOG \cup {<<"w", "nonneg">>}
    [] s = "mips" -> MLOG \cup {<<"pi_b", "pinned">>, <<"action_embed", "context">>, <<"context", "context">>}
    [] s = "multi-ipw" -> LOG \cup PS [] s = "multi-dr" -> MLOG \cup PS \cup Q
    [] s = "multi-wipw" -> LOG \cup PS \cup {<<"stratum_idx", "id">>} [] s = "multi-wdr" -> MLOG \cup PS \cup Q \cup {<<"stratum_idx", "id">>}
    [] s = "kipw" -> {<<"action_by_evaluation_policy", "real">>, <<"action_by_behavior_policy", "real">>, <<"reward", "real">>} \cup PS
    [] s = "kdr" -> {<<"action_by_evaluation_policy", "real">>, <<"action_by_behavior_policy", "real">>, <<"reward", "real">>, <<"q", "real">>} \cup PS
    [] s = "sips" -> SLATE \cup {<<"pscore", "perslate">>, <<"epscore", "perslate0">>}
    [] s = "iips" -> SLATE \cup {<<"pscore", "unit">>, <<"epscore", "unit0">>}
    [] s = "rips" -> SLATE \cup {<<"pscore", "cascade">>, <<"epscore", "cascade0">>}
    [] s = "cdr" -> SLATE \cup {<<"pscore", "cascade">>, <<"epscore", "cascade0">>, <<"action", "index">>, <<"q", "flat">>, <<"dist", "flatdist">>}
    [] s = "reg-normal" -> CTX \cup {<<"reward", "real">>, <<"position", "slots">>}
    [] s = "reg-iw" -> CTX \cup {<<"reward", "real">>, <<"position", "slots">>, <<"pscore", "optpos">>, <<"action_dist", "pinned">>}
    [] s = "iw" -> CTX \cup {<<"position", "slots">>, <<"action_dist", "pinned">>} [] s = "ps" -> CTX \cup {<<"position", "slots">>}
    [] s = "ipw-learner" -> CTX \cup {<<"reward", "nonneg">>, <<"position", "slots">>, <<"pscore", "optpos">>}
    [] s = "q-learner" -> CTX \cup {<<"reward", "real">>, <<"position", "slots">>, <<"pscore", "optpos">>}
    [] s = "nn-learner" -> {<<"context", "context2">>, <<"action", "index">>, <<"reward", "real">>, <<"pscore", "optpos">>}
    [] s = "cnn-learner" -> {<<"context", "context2">>, <<"action", "real">>, <<"reward", "real">>, <<"pscore", "optpos">>}
    [] s = "slate-reg" -> CTX \cup {<<"reward", "real">>, <<"pscore", "unit">>, <<"epscore", "unit">>, <<"dist", "flatdist">>}
    [] s = "learner-predict" -> {<<"context", "context2">>} [] s = "online-select" -> {<<"context", "context2">>}
Sites == {"mips", "dm", "rm", "ipw", "dr", "bipw", "multi-ipw", "multi-dr", "multi-wipw", "multi-wdr", "kipw", "kdr", "sips", "iips", "rips", "cdr",
          "reg-normal", "reg-iw", "iw", "ps", "ipw-learner", "q-learner", "nn-learner", "cnn-learner", "slate-reg", "learner-predict", "online-select"}
\* --------------------------------------------------------------------- defects
Shape == {"none", "list", "dim", "short", "long"}
Local == {"neg", "over", "zero", "sum", "mass", "dup", "uneven", "rising"}
Benign == {"int32", "ints", "view"}
Defects(k) ==
  CASE k = "dist" -> Shape \cup {"sum", "mass", "view"} [] k = "pinned" -> Shape \cup {"sum", "mass", "wide", "view"} [] k = "model" -> Shape \cup {"wide", "view"}
    [] k \in {"index", "slots"} -> Shape \cup {"float", "neg", "over", "int32"} [] k = "id" -> Shape \cup {"float", "neg", "int32"}
    [] k = "slot" -> Shape \cup {"float", "neg", "dup", "int32"} [] k = "real" -> Shape \cup {"ints", "view"}
    [] k \in {"pos", "optpos"} -> Shape \cup {"neg", "zero", "view"} [] k = "nonneg" -> Shape \cup {"neg", "view"}
    [] k \in {"unit", "perslate", "cascade"} -> Shape \cup {"neg", "zero", "over"} \cup (IF k = "perslate" THEN {"uneven"} ELSE IF k = "cascade" THEN {"rising"} ELSE {})
    [] k \in {"unit0", "perslate0", "cascade0"} -> Shape \cup {"neg", "over"} \cup (IF k = "perslate0" THEN {"uneven"} ELSE IF k = "cascade0" THEN {"rising"} ELSE {})
    [] k = "flat" -> Shape \cup {"ragged"} [] k = "flatdist" -> Shape \cup {"ragged", "sum", "mass"}
    [] k = "context" -> Shape [] k = "context2" -> Shape \cup {"wide", "narrow"}
VARIABLES site, L, plan
vars == <<site, L, plan>>
Init == site \in Sites /\ L \in (IF site = "mips" THEN {1} ELSE {1, 2}) /\ plan = {}
\* a learner of one-slot lists does not look at the positions beyond their being indices
Ignored(a, d) == L = 1 /\ site \in {"reg-normal", "reg-iw", "iw", "ps", "ipw-learner", "q-learner"} /\ a = "position" /\ d = "over"
Spoil == \E a \in Args(site) : \E d \in {x \in Defects(a[2]) : ~Ignored(a[1], x)} : \E r \in (IF d \in Local THEN {"first", "mid", "last"} ELSE {"-"}) :
           /\ Cardinality(plan) < MaxDefects /\ \A p \in plan : p.arg # a[1]
           /\ plan' = plan \cup {[arg |-> a[1], kind |-> a[2], d |-> d, row |-> r]} /\ UNCHANGED <<site, L>>
Next == Spoil
\* ---------------------------------------------------- what a plan does, abstractly
Optional(p) == p.kind = "optpos" \/ (p.kind = "slots" /\ L = 1)
Harmless(p) == p.d \in Benign \/ (p.d = "none" /\ Optional(p))
Lengths == {p.d : p \in {x \in plan : x.d \in {"short", "long"}}}
Shifted == {p.arg : p \in {x \in plan : x.d \in {"short", "long"}}}
Present == {a[1] : a \in Args(site)} \ {p.arg : p \in {x \in plan : x.d = "none"}}
Agree == Lengths = {} \/ (Cardinality(Lengths) = 1 /\ Shifted = Present /\ site # "online-select")
Fine == Agree /\ \A p \in plan : Harmless(p) \/ p.d \in {"short", "long"}
\* a plan is fine only if every defect in it is: nothing mends a broken argument
Monotone == Fine => \A p \in plan : p.d \notin {"list", "dim", "float", "neg", "sum", "mass", "dup", "uneven", "rising", "ragged", "wide", "narrow"}
OneBad == (Cardinality(plan) = 1 /\ Cardinality(Args(site)) > 1) => (Fine <=> \A p \in plan : Harmless(p))
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Serialize(ToJson([site |-> site, L |-> L, plan |-> plan, fine |-> Fine]) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
