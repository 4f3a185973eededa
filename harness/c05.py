import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from common import q, qa, num, guarded
import ope
import obp.ope as O

PID, CHECKER = "C05", "CheckC05"
ASSUMPTIONS = ["the regression of the action on context and embedding is a deterministic stand-in defined in spec/Embed.tla, handed in through pi_a_x_e_estimator",
               "where two candidate embedding sets are numerically tied, any candidate estimate is accepted"]


class Prior(ClassifierMixin, BaseEstimator):
    """Class priors of the training data times exp of a fixed linear score (spec/Embed.tla: Proba)."""
    _estimator_type = "classifier"

    def fit(self, X, y):
        self.classes_, self.n_ = np.unique(y, return_counts=True)
        return self

    def predict_proba(self, X):
        X = np.asarray(X, dtype=float)
        M = (((7 * np.arange(X.shape[1])[:, None] + 3 * self.classes_[None, :]) % 5) - 2) / 4
        u = self.n_ * np.exp(X @ M)
        return u / u.sum(1, keepdims=True)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def mc(chk):
    chk.gen = chk.model("MC_Embed", out="e.ndjson")
    if not chk.quick:
        chk.model("MC_Embed", "MC_EmbedBig.cfg", workers=6)


def calls(rng, D, n):
    cs = [dict(sn=s, method="none", mn=1, delta="1/20") for s in (False, True)]
    if n >= 2 and D > 1:
        for s in (False, True):
            for m in ("exact", "greedy"):
                cs.append(dict(sn=s, method=m, mn=rng.choice([1, 1, 2, D]), delta=q(rng.choice([.05, .5, .9, .9, .2, .01]))))
    return cs


def rlog(rng):
    D, K, L = rng.randrange(1, 5), rng.randrange(2, 6), rng.choice([1, 1, 2])
    C = rng.randrange(2, 4)
    n = rng.choice([2, 3, 5, 8, 16, 30])
    known = rng.random() < .5
    det = rng.random() < .3
    pea = [[[0.0] * D for _ in range(C)] for _ in range(K)]
    for a in range(K):
        for d in range(D):
            v = ope.dist(rng, C, "onehot" if det else rng.choice(["coarse", "sparse", "fine"]))
            for c in range(C):
                pea[a][c][d] = v[c]
    noise = rng.choice([0.0, .1, 1.0])
    log = []
    for _ in range(n):
        pi = [ope.dist(rng, K, rng.choice(["coarse", "sparse", "onehot"])) for _ in range(L)]
        while True:
            pb = [ope.dist(rng, K, "coarse") for _ in range(L)]
            p = rng.randrange(L)
            pos = [a for a in range(K) if pb[p][a] > 0]
            a = rng.choice(pos)
            e = [rng.choices(range(C), [pea[a][c][d] for c in range(C)])[0] for d in range(D)] if known or rng.random() < .7 else [rng.randrange(C) for _ in range(D)]
            break
        r = rng.choice([0.0, 1.0]) if noise == 0 else sum(e) + noise * rng.gauss(0, 1)
        log.append(dict(a=a, p=p, r=q(r), e=e, x=qa([rng.choice([0.0, 1.0, rng.gauss(0, 1)]) for _ in range(2)]),
                        pi=qa([[pi[l][k] for l in range(L)] for k in range(K)]), pb=qa([[pb[l][k] for l in range(L)] for k in range(K)])))
    return dict(log=log, pea=qa(pea) if known else [], D=D)


def hard(rng):
    """A log on which the intervals of the candidate sets disagree: skewed policies, few rounds, little reward noise."""
    D, K, n = rng.randrange(2, 5), rng.randrange(2, 5), rng.choice([8, 12, 20, 30])
    known = rng.random() < .7
    pea = [[[0.0] * D for _ in range(2)] for _ in range(K)]
    for a in range(K):
        for d in range(D):
            t = rng.choice([.5, .9, .99, .1, .02, .3])
            pea[a][0][d], pea[a][1][d] = t, 1 - t
    top, eps = rng.choice([.9, .7, .97]), rng.choice([0, .05, .3])
    wt = [rng.choice([0, 0, 1, 3]) for _ in range(D)]
    pi, pb = [.02 / (K - 1)] * K, [(1 - top) / (K - 1)] * K
    pi[K - 1], pb[0] = .98, top
    log = []
    for _ in range(n):
        a = rng.choices(range(K), pb)[0]
        e = [rng.choices(range(2), [pea[a][c][d] for c in range(2)])[0] for d in range(D)]
        r = 1 + sum(w * x for w, x in zip(wt, e)) + eps * rng.gauss(0, 1)
        log.append(dict(a=a, p=0, r=q(r), e=e, x=qa([0.0, 1.0]), pi=qa([[x] for x in pi]), pb=qa([[x] for x in pb])))
    return dict(log=log, pea=qa(pea) if known else [], D=D)


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(300, len(chk.gen)))
    for g in gen:
        out.append(dict(kind="spec-log", log=g["log"], pea=g["pea"], D=2, flags=[], calls=calls(rng, 2, len(g["log"]))))
        if rng.random() < .2:
            out.append(dict(kind="spec-log-fitted", log=g["log"], pea=[], D=2, flags=[], calls=calls(rng, 2, len(g["log"]))))
    for _ in range(120 if chk.quick else 2000):
        g = hard(rng)
        out.append(dict(g, kind="hard-selection", flags=[], calls=[c for c in calls(rng, g["D"], len(g["log"])) if c["method"] != "none"]))
    for _ in range(200 if chk.quick else 3000):
        g = rlog(rng)
        nopos = len(g["log"][0]["pi"][0]) == 1 and rng.random() < .5
        out.append(dict(g, kind="random-log" if g["pea"] else "random-fitted", flags=["nopos"] if nopos else [], calls=calls(rng, g["D"], len(g["log"]))))
    return out


def run(case):
    log = case["log"]
    K = len(log[0]["pi"])
    kw = dict(reward=np.array([num(r["r"]) for r in log]), action=np.array([r["a"] for r in log]), action_embed=np.array([r["e"] for r in log]),
              pi_b=np.array([num(r["pb"]) for r in log]), action_dist=np.array([num(r["pi"]) for r in log]), context=np.array([num(r["x"]) for r in log]),
              position=None if "nopos" in case["flags"] else np.array([r["p"] for r in log]))
    if case["pea"]:
        kw["p_e_a"] = np.array([num(r) for r in case["pea"]])
    rec = []
    for c in case["calls"]:
        cls = O.SelfNormalizedMarginalizedInverseProbabilityWeighting if c["sn"] else O.MarginalizedInverseProbabilityWeighting
        mk = lambda: cls(n_actions=K, pi_a_x_e_estimator=Prior(), embedding_selection_method=None if c["method"] == "none" else c["method"], min_emb_dim=c["mn"], delta=num(c["delta"]))
        r = guarded(lambda: mk().estimate_policy_value(**kw))
        rec.append(dict(c, res=q(r[1]) if r[0] == "ok" and np.ndim(r[1]) == 0 else "nan", err="" if r[0] == "ok" else "%s: %s" % r[1:]))
    return dict(log=log, pea=case["pea"], D=case["D"], calls=rec)
