------------------------------ MODULE CheckC18 ------------------------------
(* Judge: coefficients returned by a sequence of requests follow Drift.       *)
(* record: D,T,seasonal,w,type; coefs: per round [c, a, x] (flattened);       *)
(* anchors: per anchor number [c, a, x] from a transition-free drifter of the *)
(* same seed (linear), or <<>> (sampled: anchors read off stable rounds);     *)
(* whole: the same horizon requested at once.                                 *)
EXTENDS JudgeBase, Drift
Fields == <<"c", "a", "x">>
Same(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(s) : RNear(s[i], t[i], Tol)
SameCoef(u, v) == \A f \in 1 .. 3 : Same(u[Fields[f]], v[Fields[f]])
Expected(o, t) ==
  LET lam == Lam(t, o.D, o.T)
      l == o.anchors[Lo(t, o.D, o.seasonal) + 1]
      h == o.anchors[Hi(t, o.D, o.seasonal) + 1]
      b == o.anchors[1]
      one(f) == [i \in 1 .. Len(b[f]) |-> Coef(b[f][i], l[f][i], h[f][i], lam, o.w)]
  IN [c |-> one("c"), a |-> one("a"), x |-> one("x")]
Linear(o) ==
  LET bad == {t \in 0 .. Len(o.coefs) - 1 : ~SameCoef(o.coefs[t + 1], Expected(o, t))} IN
  IF bad = {} THEN "ok"
  ELSE "coefficients of round " \o ToString(CHOOSE t \in bad : \A u \in bad : t <= u) \o " are not those of the schedule (interval " \o ToString(o.D) \o ", transition " \o ToString(o.T) \o ", seasonal " \o ToString(o.seasonal) \o ", requests " \o ToString(o.reqs) \o ")"
(* sampled: stable rounds of phase k all show anchor k; the others show anchor k or k+1, all three parts alike *)
Stable(o, k) == o.coefs[k * o.D + 1]
Sampled(o) ==
  LET N == Len(o.coefs)
      known(k) == o.D > o.T /\ k * o.D + 1 <= N
      bad == {t \in 0 .. N - 1 :
         LET k == Phase(t, o.D) IN
         /\ known(k)
         /\ ~SameCoef(o.coefs[t + 1], Stable(o, k))
         /\ \/ StepNo(t, o.D, o.T) = 0
            \/ (known(k + 1) /\ ~SameCoef(o.coefs[t + 1], Stable(o, k + 1)))}
      season == {t \in 0 .. N - 1 : o.seasonal /\ known(Phase(t, o.D)) /\ Phase(t, o.D) >= 2 /\ ~SameCoef(Stable(o, Phase(t, o.D)), Stable(o, Phase(t, o.D) - 2))}
  IN IF bad # {} THEN "coefficients of round " \o ToString(CHOOSE t \in bad : \A u \in bad : t <= u) \o " are neither of the two anchors"
     ELSE IF season # {} THEN "seasonal anchors do not alternate"
     ELSE "ok"
(* over many intervals, step k of the transition shows the next anchor in a share k/(T+1) of them, *)
(* and consecutive steps do so independently *)
Compatible(k, n, p) == RLe(RSq(RMax("0", RSub(RAbs(RSub(k, RMul(n, p))), 1))), RMul("169/4", RMul(n, RMul(p, RSub(1, p)))))
Shares(o) ==
  LET P == Len(o.coefs) \div o.D - 1                       \* phases followed by another one
      jumped(k, s) == SameCoef(o.coefs[(k - 1) * o.D + o.D - o.T + s], Stable(o, k))      \* phase k-1, step s
      hits(s) == Cardinality({k \in 1 .. P : jumped(k, s)})
      both(s) == Cardinality({k \in 1 .. P : jumped(k, s) /\ jumped(k, s + 1)})
      bad == {s \in 1 .. o.T : ~Compatible(hits(s), P, RDiv(s, o.T + 1))}
      dep == {s \in 1 .. o.T - 1 : ~Compatible(both(s), P, RDiv(s * (s + 1), (o.T + 1) * (o.T + 1)))}
  IN IF bad # {} THEN LET s == CHOOSE x \in bad : TRUE IN
        "step " \o ToString(s) \o " of a transition of " \o ToString(o.T) \o " rounds shows the next anchor in " \o ToString(hits(s)) \o " of " \o ToString(P) \o " intervals"
     ELSE IF dep # {} THEN "sampled transition steps are not independent" ELSE "ok"
Verdict(o) ==
  IF o.err # "" THEN "drifter raised: " \o o.err
  ELSE IF Len(o.coefs) # o.n \/ Len(o.whole) # o.n THEN "number of coefficient rows is not the number of rounds"
  ELSE IF \E t \in 1 .. o.n : ~SameCoef(o.coefs[t], o.whole[t]) THEN
       "coefficients depend on how the rounds are requested: round " \o ToString(CHOOSE t \in 1 .. o.n : ~SameCoef(o.coefs[t], o.whole[t])) \o ", requests " \o ToString(o.reqs)
  ELSE IF o.type = "linear" THEN Linear(o)
  ELSE LET v == Sampled(o) IN IF v = "ok" /\ o.kind = "sampled-stat" THEN Shares(o) ELSE v
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Obs) |-> Verdict(Obs[i])])
=============================================================================
