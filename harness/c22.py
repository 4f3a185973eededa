import numpy as np
from fractions import Fraction
from sklearn.base import BaseEstimator, ClassifierMixin
from common import q, qa, ia, num, guarded
from obp.dataset import MultiClassToBanditReduction

PID, CHECKER = "C22", "CheckC22"
ASSUMPTIONS = ["classifiers are deterministic and predict dense class indices they were trained on",
               "action frequencies are compared with the reported policy at six standard deviations"]
FITS = []


class TableClassifier(ClassifierMixin, BaseEstimator):
    """Predicts table[sample id] (first feature is the sample id); records what it is trained on."""

    def __init__(self, table=()):
        self.table = table

    def fit(self, X, y):
        FITS.append((np.array(X), np.array(y)))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        return np.array([self.table[int(i)] for i in np.asarray(X)[:, 0]])


def mc(chk):
    gen = chk.model("MC_Multiclass", out="mc.ndjson")
    seen = {}
    for g in gen:
        seen[str(g)] = g
    chk.gen = list(seen.values())
    if not chk.quick:
        chk.model("MC_Multiclass", "MC_MulticlassBig.cfg")


ALPH = [[0, 1], [0, 1, 2], [1, 2], [-1, 1], [3, 7, 10], [-5, 0, 2, 9], [0.5, 1.5, 4.0], [1, 2, 3, 4, 5], ["a", "b", "zz"], [2, 1, 0], [10, 100]]


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(len(chk.gen), 300))
    for g in gen:
        K = len(set(g["y"]))
        out.append(dict(kind="spec-reduction", y=g["y"], strs=None, tab=[rng.randrange(K) for _ in g["y"]],
                        evsize=g["nev"], frac=False, alpha=g["alpha"], nd=min(g["nd"], K - 1), seed=rng.randrange(10**6), es=rng.randrange(10**6)))
    for i in range(250 if chk.quick else 3000):
        al = rng.choice(ALPH)
        big = i % 12 == 0
        n = 400 if big else rng.randrange(2 * len(al) + 2, 60)
        lab = al + [rng.choice(al) for _ in range(n - len(al))]
        rng.shuffle(lab)
        strs = None
        if isinstance(al[0], str):
            strs = lab
            lab = [sorted(set(al)).index(x) for x in lab]
        K = len(set(lab))
        acc = rng.choice([0.0, 0.5, 0.9, 1.0])
        rank = {v: k for k, v in enumerate(sorted(set(lab)))}
        tab = [rank[v] if rng.random() < acc else rng.randrange(K) for v in lab]
        frac = rng.random() < .5
        out.append(dict(kind="random-reduction", y=[q(v) for v in lab], strs=strs, tab=tab, intlab=all(isinstance(v, int) for v in lab),
                        evsize=rng.choice([0.25, 0.5, 0.9 if n >= 20 else 0.75]) if frac else rng.randrange(1, n - 1), frac=frac,
                        alpha=q(rng.choice([0.0, 0.5, 0.8, 0.99, rng.uniform(0, .999)])), nd=rng.choice([0, 0, 1, K - 1, rng.randrange(K)]),
                        seed=rng.randrange(10**6), es=rng.randrange(10**6), explicit=rng.random() < .5))
    for K, nd in [(3, 1), (4, 2), (2, 0)]:
        out.append(dict(kind="many-seeds", K=K, nd=nd, alpha=q(0.0), seed=rng.randrange(10**6), runs=1500 if chk.quick else 12000))
    return out


def run_many(case):
    """The first rounds of many seeded logs: the actions follow the reported policies whatever the seed decided before."""
    K, n = case["K"], 4 * case["K"]
    y = np.arange(n) % K
    d = MultiClassToBanditReduction(X=np.c_[np.arange(n), np.zeros(n)], y=y, base_classifier_b=TableClassifier([0] * n), alpha_b=num(case["alpha"]), n_deficient_actions=case["nd"])
    d.split_train_eval(eval_size=2, random_state=0)
    pib, act = [], []
    for s in range(case["runs"]):
        f = d.obtain_batch_bandit_feedback(random_state=case["seed"] + s)
        pib.append(f["pi_b"][0, :, 0])
        act.append(f["action"][0])
    return dict(k="freq", K=K, pib=qa(pib), act=ia(act))


def run(case):
    if case["kind"] == "many-seeds":
        return run_many(case)
    del FITS[:]
    n = len(case["y"])
    rng = np.random.RandomState(case["es"])
    X = np.c_[np.arange(n), rng.normal(size=(n, 2))]
    y = np.array([num(v) for v in case["y"]])
    if case.get("intlab", True) and not case["strs"]:
        y = y.astype(int)
    if case["strs"]:
        y = np.array(case["strs"])
    rec = dict(y=case["y"], nd=case["nd"], alpha=case["alpha"], evsize=q(case["evsize"]), frac=case["frac"], ev=[], fits=[], pred=[], pib=[], act=[], rew=[], ps=[], K=0, n=0, evals=[], dists=[], err="", same=True)

    def go():
        d = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=TableClassifier(case["tab"]), alpha_b=num(case["alpha"]), n_deficient_actions=case["nd"])
        d.split_train_eval(eval_size=case["evsize"], random_state=case["seed"])
        return d, d.obtain_batch_bandit_feedback(random_state=case["seed"])
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        return rec
    d, bf = r[1]
    ev = [int(i) for i in bf["context"][:, 0]]
    if not np.array_equal(bf["context"], X[ev]):
        rec["err"] = "context rows are not rows of X"
        return rec
    rec.update(ev=[i + 1 for i in ev], pred=[int(case["tab"][i]) for i in ev], pib=qa(bf["pi_b"][:, :, 0]), act=ia(bf["action"]), rew=qa(bf["reward"]),
               ps=qa(bf["pscore"]), K=int(bf["n_actions"]), n=int(bf["n_rounds"]))
    bf2 = d.obtain_batch_bandit_feedback(random_state=case["seed"])
    rec["same"] = all(np.array_equal(bf[k], bf2[k]) for k in ("action", "reward", "pscore", "pi_b", "context"))
    K = rec["K"]
    for j in range(2):
        tab = [int(t) for t in rng.randint(K, size=n)]
        own = j == 0
        a = float(rng.choice([0.0, 1.0, 0.5, rng.uniform()]))

        def ev_():
            pe = d.obtain_action_dist_by_eval_policy(base_classifier_e=None if own else TableClassifier(tab), alpha_e=a)
            return pe, d.calc_ground_truth_policy_value(action_dist=pe)
        e = guarded(ev_)
        t = case["tab"] if own else tab
        if e[0] == "err":
            rec["evals"].append(dict(alpha=q(a), pred=[], dist=[], value="nan", err="%s: %s" % e[1:]))
        else:
            rec["evals"].append(dict(alpha=q(a), pred=[int(t[i]) for i in ev], dist=qa(e[1][0][:, :, 0]), value=q(e[1][1]), err=""))
    dists = [rng.dirichlet(np.ones(K), size=len(ev))[:, :, None], np.full((len(ev), K, 1), 1.0 / K)]
    for x in dists:
        rec["dists"].append(dict(dist=qa(x[:, :, 0]), value=q(d.calc_ground_truth_policy_value(action_dist=x))))
    rec["fits"] = [dict(idx=[int(i) + 1 for i in fx[:, 0]], cls=ia(fy)) for fx, fy in FITS]
    return rec
