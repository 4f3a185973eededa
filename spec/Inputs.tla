------------------------------ MODULE Inputs ------------------------------
(* What the interfaces of the library require of the data they are handed.    *)
(* An argument is a record [given, arr, shape, int, v]: was it given, is it an *)
(* array, its shape, is it of an integer type, its elements (row-major).      *)
EXTENDS Integers, Sequences, FiniteSets, Num
\* ------------------------------------------------ requirements of one argument
Array(a, d) == a.given /\ a.arr /\ Len(a.shape) = d
Rows(a) == a.shape[1]
Ints(a, d, lo, hi) == Array(a, d) /\ a.int /\ \A i \in 1 .. Len(a.v) : RLe(lo, a.v[i]) /\ RLt(a.v[i], hi)
Naturals(a, d) == Array(a, d) /\ a.int /\ \A i \in 1 .. Len(a.v) : RLe("0", a.v[i])
Positive(a) == Array(a, 1) /\ \A i \in 1 .. Len(a.v) : RLt("0", a.v[i])
Unit(a, zero) == Array(a, 1) /\ \A i \in 1 .. Len(a.v) : RLe(a.v[i], "1") /\ (IF zero THEN RLe("0", a.v[i]) ELSE RLt("0", a.v[i]))
\* a distribution over the second axis of a 3-dimensional array
At3(a, i, k, l) == a.v[(((i - 1) * a.shape[2]) + (k - 1)) * a.shape[3] + l]
Dist(a) == /\ Array(a, 3)
           /\ \A i \in 1 .. a.shape[1] : \A l \in 1 .. a.shape[3] :
                 /\ \A k \in 1 .. a.shape[2] : RLe("0", At3(a, i, k, l))
                 /\ RNear(RSum([k \in 1 .. a.shape[2] |-> At3(a, i, k, l)]), "1", "1/1000000")
FlatDist(a, n, K) == /\ Array(a, 1) /\ Rows(a) = n * K
                     /\ \A i \in 1 .. n : /\ \A k \in 1 .. K : RLe("0", a.v[((i - 1) * K) + k])
                                          /\ RNear(RSum([k \in 1 .. K |-> a.v[((i - 1) * K) + k]]), "1", "1/1000000")
Same(n, s) == \A i \in 1 .. Len(s) : Rows(s[i]) = n
\* the position of every round lies on the list; it may be left out when the list has one slot
Slots(a, n, L) == IF ~a.given THEN L = 1 ELSE Ints(a, 1, 0, L) /\ Rows(a) = n
\* ------------------------------------------------------- single-action logs
Common(g) == Dist(g.action_dist) /\ Slots(g.position, Rows(g.action_dist), g.action_dist.shape[3])
Logged(g) == /\ Common(g) /\ Ints(g.action, 1, 0, g.action_dist.shape[2]) /\ Array(g.reward, 1)
             /\ Same(Rows(g.action_dist), <<g.action, g.reward>>)
Weighted(g) == Logged(g) /\ Positive(g.pscore) /\ Rows(g.pscore) = Rows(g.action_dist)
Model(g) == Array(g.q, 3) /\ g.q.shape = g.action_dist.shape
Single(site, g) ==
  CASE site = "dm" -> Common(g) /\ Model(g)
    [] site = "rm" -> Logged(g)
    [] site = "ipw" -> Weighted(g)
    [] site = "dr" -> Weighted(g) /\ Model(g)
    [] site = "bipw" -> Logged(g) /\ Array(g.w, 1) /\ Rows(g.w) = Rows(g.action_dist) /\ \A i \in 1 .. Len(g.w.v) : RLe("0", g.w.v[i])
    [] site = "mips" -> /\ Logged(g) /\ Dist(g.pi_b) /\ g.pi_b.shape = g.action_dist.shape /\ Array(g.action_embed, 2) /\ Array(g.context, 2)
                        /\ Same(Rows(g.action_dist), <<g.action_embed, g.context>>)
    [] site = "multi-ipw" -> Weighted(g)
    [] site = "multi-dr" -> Weighted(g) /\ Model(g)
    [] site = "multi-wipw" -> Weighted(g) /\ Naturals(g.stratum_idx, 1) /\ Rows(g.stratum_idx) = Rows(g.action_dist)
    [] site = "multi-wdr" -> Weighted(g) /\ Model(g) /\ Naturals(g.stratum_idx, 1) /\ Rows(g.stratum_idx) = Rows(g.action_dist)
\* ------------------------------------------------------------ continuous actions
Continuous(site, g) ==
  /\ Array(g.action_by_evaluation_policy, 1) /\ Array(g.action_by_behavior_policy, 1) /\ Array(g.reward, 1) /\ Positive(g.pscore)
  /\ Same(Rows(g.action_by_evaluation_policy), <<g.action_by_behavior_policy, g.reward, g.pscore>>)
  /\ site = "kdr" => Array(g.q, 1) /\ Rows(g.q) = Rows(g.action_by_evaluation_policy)
\* ------------------------------------------------------------------------ slates
SameSlot(g, i, j) == g.slate_id.v[i] = g.slate_id.v[j] /\ g.position.v[i] = g.position.v[j]
SlateBase(g) ==
  /\ Naturals(g.slate_id, 1) /\ Naturals(g.position, 1) /\ Array(g.reward, 1) /\ Unit(g.pscore, FALSE) /\ Unit(g.epscore, TRUE)
  /\ Same(Rows(g.slate_id), <<g.position, g.reward, g.pscore, g.epscore>>)
  /\ \A i, j \in 1 .. Rows(g.slate_id) : i # j => ~SameSlot(g, i, j)
OnePerSlate(g, a) == \A i, j \in 1 .. Rows(g.slate_id) : g.slate_id.v[i] = g.slate_id.v[j] => a.v[i] = a.v[j]
Falling(g, a) == \A i, j \in 1 .. Rows(g.slate_id) : (g.slate_id.v[i] = g.slate_id.v[j] /\ RLt(g.position.v[i], g.position.v[j])) => RLe(a.v[j], a.v[i])
Slate(site, g, K) ==
  /\ SlateBase(g)
  /\ site = "sips" => OnePerSlate(g, g.pscore) /\ OnePerSlate(g, g.epscore)
  /\ site \in {"rips", "cdr"} => Falling(g, g.pscore) /\ Falling(g, g.epscore)
  /\ site = "cdr" => /\ Ints(g.action, 1, 0, K) /\ Rows(g.action) = Rows(g.slate_id)
                     /\ Array(g.q, 1) /\ Rows(g.q) = Rows(g.slate_id) * K /\ FlatDist(g.dist, Rows(g.slate_id), K)
\* ------------------------------------------------------- fitting models and policies
Feedback(g) == /\ Array(g.context, 2) /\ Naturals(g.action, 1) /\ Array(g.reward, 1) /\ Same(Rows(g.context), <<g.action, g.reward>>)
Scores(g) == g.pscore.given => Positive(g.pscore) /\ Rows(g.pscore) = Rows(g.context)
Fit(site, g, K, L) ==
  CASE site = "reg-normal" -> Feedback(g) /\ Ints(g.action, 1, 0, K) /\ Slots(g.position, Rows(g.context), L)
    [] site = "reg-iw" -> Feedback(g) /\ Ints(g.action, 1, 0, K) /\ Slots(g.position, Rows(g.context), L) /\ Scores(g) /\ Dist(g.action_dist) /\ g.action_dist.shape = <<Rows(g.context), K, L>>
    [] site = "iw" -> Array(g.context, 2) /\ Ints(g.action, 1, 0, K) /\ Rows(g.action) = Rows(g.context) /\ Slots(g.position, Rows(g.context), L) /\ Dist(g.action_dist) /\ g.action_dist.shape = <<Rows(g.context), K, L>>
    [] site = "ps" -> Array(g.context, 2) /\ Ints(g.action, 1, 0, K) /\ Rows(g.action) = Rows(g.context) /\ Slots(g.position, Rows(g.context), L)
    [] site = "ipw-learner" -> Feedback(g) /\ Ints(g.action, 1, 0, K) /\ Slots(g.position, Rows(g.context), L) /\ Scores(g) /\ \A i \in 1 .. Len(g.reward.v) : RLe("0", g.reward.v[i])
    [] site = "q-learner" -> Feedback(g) /\ Ints(g.action, 1, 0, K) /\ Slots(g.position, Rows(g.context), L) /\ Scores(g)
    [] site = "nn-learner" -> Feedback(g) /\ Ints(g.action, 1, 0, K) /\ Scores(g) /\ g.context.shape[2] = 2
    [] site = "cnn-learner" -> Array(g.context, 2) /\ Array(g.action, 1) /\ Array(g.reward, 1) /\ Same(Rows(g.context), <<g.action, g.reward>>) /\ Scores(g) /\ g.context.shape[2] = 2
    [] site = "slate-reg" -> /\ Array(g.context, 2) /\ Ints(g.action, 1, 0, K) /\ Array(g.reward, 1) /\ Unit(g.pscore, FALSE) /\ Unit(g.epscore, FALSE)
                             /\ Same(Rows(g.context) * L, <<g.action, g.reward, g.pscore, g.epscore>>) /\ FlatDist(g.dist, Rows(g.context) * L, K)
\* --------------------------------------------------------------- asking policies
Ask(site, g, K) ==
  CASE site = "learner-predict" -> Array(g.context, 2) /\ g.context.shape[2] = 2
    [] site = "online-select" -> Array(g.context, 2) /\ g.context.shape = <<1, 2>>
SingleSites == {"mips", "dm", "rm", "ipw", "dr", "bipw", "multi-ipw", "multi-dr", "multi-wipw", "multi-wdr"}
ContinuousSites == {"kipw", "kdr"}
SlateSites == {"sips", "iips", "rips", "cdr"}
FitSites == {"reg-normal", "reg-iw", "iw", "ps", "ipw-learner", "q-learner", "nn-learner", "cnn-learner", "slate-reg"}
AskSites == {"learner-predict", "online-select"}
Valid(o) == IF o.site \in SingleSites THEN Single(o.site, o.g) ELSE IF o.site \in ContinuousSites THEN Continuous(o.site, o.g)
            ELSE IF o.site \in SlateSites THEN Slate(o.site, o.g, o.K) ELSE IF o.site \in FitSites THEN Fit(o.site, o.g, o.K, o.L) ELSE Ask(o.site, o.g, o.K)
\* --------------------------------------------------- parameters of constructors
\* a parameter [type, lo, hi, loin, hiin]; a value [tag, x]: tag "int" | "float" | "str" | "none"
Typed(p, v) == CASE p.type = "int" -> v.tag = "int" [] p.type = "float" -> v.tag = "float" [] p.type = "num" -> v.tag \in {"int", "float"}
Above(p, x) == p.lo = "-inf" \/ RLt(p.lo, x) \/ (p.loin /\ x = p.lo)
Below(p, x) == p.hi = "inf" \/ RLt(x, p.hi) \/ (p.hiin /\ x = p.hi)
InRange(p, v) == Typed(p, v) /\ Above(p, v.x) /\ Below(p, v.x)
=============================================================================
