-------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* Logs with action embeddings.  A round is                                *)
(*   a, p, r       logged action, position, reward                         *)
(*   e             embedding: a category per dimension (0-based)           *)
(*   x             context vector                                          *)
(*   pi, pb        evaluation and logging policies, indexed [a+1][p+1]     *)
(* pea[a+1][c+1][d] is the probability of category c in dimension d given  *)
(* action a (dimensions are independent given the action); pea = <<>> when *)
(* the embedding distribution is unknown and the action is regressed on    *)
(* context and embedding instead.                                          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN "1" ELSE RMul(Head(s), Prod(Tail(s)))
Dims(S) == SetToSortSeq(S, LAMBDA i, j : i < j)
EMean(s) == RDiv(RSum(s), Len(s))
EVar(s) == LET m == EMean(s) IN EMean([i \in 1 .. Len(s) |-> RSq(RSub(s[i], m))])
Pol(m, rd) == [a \in 1 .. Len(m) |-> m[a][rd.p + 1]]
(* probability of the embedding e restricted to the dimensions S, given action a (1-based) *)
PE(pea, e, S, a) == LET ds == Dims(S) IN Prod([k \in 1 .. Len(ds) |-> pea[a][e[ds[k]] + 1][ds[k]]])
Induced(pea, e, S, pol) == RSum([a \in 1 .. Len(pol) |-> RMul(pol[a], PE(pea, e, S, a))])
TrueW(pea, S, rd) == RTrim(RDiv(Induced(pea, rd.e, S, Pol(rd.pi, rd)), Induced(pea, rd.e, S, Pol(rd.pb, rd))))
(* ---------------------------------------------------------- fitted weights *)
Cats(log, d) == SetToSortSeq({log[i].e[d] : i \in 1 .. Len(log)}, LAMBDA i, j : i < j)
OneHot(log, d, c) == LET cs == Cats(log, d) IN [k \in 1 .. Len(cs) - 1 |-> IF cs[k + 1] = c THEN "1" ELSE "0"]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Features(log, S, i) == LET ds == Dims(S) IN log[i].x \o Flat([k \in 1 .. Len(ds) |-> OneHot(log, ds[k], log[i].e[ds[k]])])
(* the regression used in the conformance runs: class priors from the training *)
(* data times exp of a fixed linear score; feature j and class c are 0-based   *)
Coef(j, c) == RDiv(((7 * j + 3 * c) % 5) - 2, 4)
Count(log, c) == Cardinality({i \in 1 .. Len(log) : log[i].a = c})
Score(f, c) == RExp(RSum([j \in 1 .. Len(f) |-> RMul(f[j], Coef(j - 1, c))]))
Proba(log, f, K) == LET u == RSeq([c \in 1 .. K |-> IF Count(log, c - 1) = 0 THEN "0" ELSE RMul(Count(log, c - 1), Score(f, c - 1))])
                        t == RSum(u) IN RSeq([c \in 1 .. K |-> RTrim(RDiv(u[c], t))])
Ratio(rd, a) == LET b == rd.pb[a][rd.p + 1] IN IF REq(b, 0) THEN "0" ELSE RDiv(rd.pi[a][rd.p + 1], b)
FitW(log, S, i) == LET K == Len(log[i].pi)
                       f == RSeq(Features(log, S, i))
                       pr == Proba(log, f, K)
                   IN RTrim(RSum([a \in 1 .. K |-> RMul(Ratio(log[i], a), pr[a])]))
WE(log, pea, S) == RSeq([i \in 1 .. Len(log) |-> IF pea = <<>> THEN FitW(log, S, i) ELSE TrueW(pea, S, log[i])])
(* ------------------------------------------------------------- estimates *)
RHat(sn, log, w) == LET m == IF sn THEN EMean(w) ELSE "1" IN RSeq([i \in 1 .. Len(log) |-> RTrim(RDiv(RMul(log[i].r, w[i]), m))])
Theta(sn, log, pea, S) == EMean(RHat(sn, log, WE(log, pea, S)))
(* estimate and deviation bound of one embedding set *)
Cand(sn, log, pea, S, delta) == LET h == RHat(sn, log, WE(log, pea, S))
                                    n == Len(log) IN
  [S |-> S, th |-> RTrim(EMean(h)), cnf |-> RTrim(RMul(RSqrt(RDiv(EVar(h), n - 1)), RTQuantile(RSub(1, RDiv(delta, 2)), n - 1)))]
SlopeC == RSub(RSqrt(6), 1)
Gap(acc, c) == RSub(RAdd(c.cnf, RMul(SlopeC, acc.cnf)), RAbs(RSub(acc.th, c.th)))   \* >= 0: the intervals still agree
Agrees(accs, c) == \A j \in 1 .. Len(accs) : RLe(0, Gap(accs[j], c))
Sorted(cs) == SetToSortSeq(cs, LAMBDA x, y : RLt(y.cnf, x.cnf))
RECURSIVE Level(_, _)
(* try the candidates of one level in order; stop at the first that disagrees *)
Level(accs, cs) == IF cs = <<>> THEN [accs |-> accs, stop |-> FALSE]
  ELSE IF Agrees(accs, Head(cs)) THEN Level(Append(accs, Head(cs)), Tail(cs)) ELSE [accs |-> accs, stop |-> TRUE]
Subsets(D, k) == {S \in SUBSET (1 .. D) : Cardinality(S) = k}
RECURSIVE Exact(_, _, _, _, _)
Exact(tab, accs, D, k, mn) == IF k < mn THEN accs
  ELSE LET r == Level(accs, Sorted({tab[S] : S \in Subsets(D, k)})) IN IF r.stop THEN r.accs ELSE Exact(tab, r.accs, D, k - 1, mn)
RECURSIVE Greedy(_, _, _, _)
Greedy(tab, accs, S, mn) == IF Cardinality(S) <= mn THEN accs
  ELSE LET cs == Sorted({tab[S \ {d}] : d \in S})
           r == Level(accs, cs) IN IF r.stop THEN r.accs ELSE Greedy(tab, r.accs, cs[Len(cs)].S, mn)
Table(sn, log, pea, D, mn, delta) == [S \in {T \in SUBSET (1 .. D) : Cardinality(T) >= mn} |-> Cand(sn, log, pea, S, delta)]
Selected(method, tab, D, mn) == LET full == tab[1 .. D]
                                    a == IF method = "exact" THEN Exact(tab, <<full>>, D, D - 1, mn) ELSE Greedy(tab, <<full>>, 1 .. D, mn)
                                IN a[Len(a)]
=============================================================================
