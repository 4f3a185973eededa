import copy
import random
import numpy as np
from common import q, qa, num, guarded
import ope, slate, c03, c04, c05
import obp.ope as O
from obp.ope.estimators import BaseOffPolicyEstimator
from obp.ope.estimators_multi import BaseMultiLoggersOffPolicyEstimator
from obp.ope.estimators_continuous import BaseContinuousOffPolicyEstimator
from obp.ope.estimators_slate import BaseSlateOffPolicyEstimator

PID, CHECKER = "C08", "CheckC08"
ASSUMPTIONS = ["estimators are represented by stand-ins whose answer identifies the inputs they were handed; the shipped estimators are compared with direct calls",
               "the relative value is undefined when the logged average reward is not positive"]
#         evaluator, base class, log fields, optional log fields, shared argument, routable arguments
FAM = dict(
    single=(O.OffPolicyEvaluation, BaseOffPolicyEstimator, ["action", "position", "reward", "context"], ["pscore"], ["action_dist"],
            ["estimated_rewards_by_reg_model", "estimated_pscore", "estimated_importance_weights", "action_embed", "pi_b", "p_e_a"]),
    multi=(O.MultiLoggersOffPolicyEvaluation, BaseMultiLoggersOffPolicyEstimator, ["action", "position", "reward"], ["stratum_idx", "pscore", "pscore_avg"], ["action_dist"],
           ["estimated_rewards_by_reg_model", "estimated_pscore", "estimated_pscore_avg"]),
    continuous=(O.ContinuousOffPolicyEvaluation, BaseContinuousOffPolicyEstimator, ["action", "reward", "pscore"], [], ["action_by_evaluation_policy"],
                ["estimated_rewards_by_reg_model"]),
    slate=(O.SlateOffPolicyEvaluation, BaseSlateOffPolicyEstimator, ["slate_id", "context", "action", "reward", "position"], ["pscore", "pscore_item_position", "pscore_cascade"],
           ["evaluation_policy_pscore"], ["evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade", "evaluation_policy_action_dist", "q_hat"]),
)
OPS = ["values", "intervals", "summary", "performance", "comparison", "plot"]


def mc(chk):
    chk.gen = chk.model("MC_Meta", out="m.ndjson")
    if not chk.quick:
        chk.model("MC_Meta", "MC_MetaBig.cfg", workers=6)


def call(rng, args, plots):
    op = rng.choice(OPS[:5]) if rng.random() > plots else "plot"
    if rng.random() < .12:          # the documented defaults
        return dict(op=op, args=args, alpha=.05, B=100, rs=0, gt=rng.choice([1.0, -2.5, 3.75, .125]), metric="se", rel=False, dflt=True)
    return dict(op=op, args=args, alpha=rng.choice([.05, .1, .25]), B=rng.randrange(1, 200), rs=rng.randrange(1000), gt=rng.choice([1.0, -2.5, 3.75, .125]),
                metric=rng.choice(["se", "relative-ee"]), rel=rng.random() < .4)


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(600, len(chk.gen)))
    for g in gen:
        fam = rng.choice(["single", "single", "multi", "continuous"])
        args = FAM[fam][5]
        a = rng.sample(args, min(2, len(args)))
        m = dict(zip(a, [g["args"]["x"], g["args"]["y"]]))
        calls = [call(rng, m, 0.02)]
        if rng.random() < .4:
            calls.append(call(rng, {}, 0))
            calls.append(call(rng, m, 0))
        out.append(dict(kind="spec-call", fam=fam, ests=g["ests"], calls=calls, seed=rng.randrange(10**6)))
    for i in range(300 if chk.quick else 4000):
        fam = rng.choice(list(FAM))
        names = rng.sample(["ipw", "ipw2", "DR", "dr", "dr (λ=1)", "b-ipw", "x"], rng.randrange(1, 5))
        calls = []
        for _ in range(rng.randrange(1, 4)):
            m = {}
            for a in FAM[fam][5]:
                mode = rng.choice(["none", "all"] if fam == "slate" else ["none", "all", "dict", "dict"])
                if mode == "all":
                    m[a] = dict(mode="all")
                elif mode == "dict":
                    m[a] = dict(mode="dict", d={n: "" for n in rng.sample(names + ["other"], rng.randrange(0, len(names) + 2))})
            calls.append(call(rng, m, 0.02))
        out.append(dict(kind="random-call", fam=fam, ests=names, calls=calls, seed=rng.randrange(10**6)))
    for _ in range(15 if chk.quick else 250):
        for fam in FAM:
            out.append(dict(kind="real", fam=fam, seed=rng.randrange(10**6), dicts=rng.random() < .5))
    return out


# ------------------------------------------------------------------ stand-ins
def spy(base):
    class Spy(base):
        def __init__(self, name, basev, coef, registry):
            self.estimator_name, self.basev, self.coef, self.registry = name, basev, coef, registry

        def _value(self, kw):
            v = self.basev
            for f, c in self.coef:
                x = kw.get(f)
                v += c * (-1 if x is None else self.registry(x))
            return v

        def _estimate_round_rewards(self, **kw):
            return np.full(kw["reward"].shape[0], self._value(kw))

        def estimate_policy_value(self, **kw):
            return self._value(kw)

        def estimate_policy_value_tensor(self, **kw):
            return self._value(kw)

        def estimate_interval(self, alpha=None, n_bootstrap_samples=None, random_state=None, **kw):
            v = self._value(kw)
            return {"mean": v, "%s%% CI (lower)" % (100 * (1 - alpha)): v - alpha, "%s%% CI (upper)" % (100 * (1 - alpha)): v + n_bootstrap_samples + (random_state or 0)}
    Spy.__abstractmethods__ = frozenset()
    return Spy


class Registry:
    """Token of an array, found by content, so that copies keep theirs."""

    def __init__(self):
        self.items = []

    def add(self, arr):
        self.items.append((arr.copy(), len(self.items) + 2))
        return self.items[-1][1]

    def __call__(self, arr):
        for a, t in self.items:
            if np.shape(arr) == a.shape and np.array_equal(np.asarray(arr), a):
                return t
        return -777


def shape_of(f, fam, n, K, L):
    if f in ("context",):
        return (n, 3)
    if fam in ("continuous", "slate"):
        return (n * K,) if f in ("evaluation_policy_action_dist", "q_hat") else (n,)
    if f in ("action_dist", "estimated_rewards_by_reg_model", "pi_b"):
        return (n, K, L)
    if f == "p_e_a":
        return (K, 4, 2)
    if f == "action_embed":
        return (n, 2)
    return (n,)


def read_interval(d):
    lo = [k for k in d if "lower" in str(k)]
    hi = [k for k in d if "upper" in str(k)]
    return [d["mean"], d[lo[0]], d[hi[0]]]


def ask(meta, c, kw):
    op = c["op"]
    ci = dict(alpha=c["alpha"], n_bootstrap_samples=c["B"], random_state=c["rs"])
    me = dict(metric=c["metric"])
    if c.get("dflt"):
        ci, me = {}, {}
    if op == "values":
        d = meta.estimate_policy_values(**kw)
        return [(k, [v]) for k, v in d.items()]
    if op == "intervals":
        d = meta.estimate_intervals(**kw, **ci)
        return [(k, read_interval(v)) for k, v in d.items()]
    if op == "summary":
        v, i = meta.summarize_off_policy_estimates(**kw, **ci)
        assert set(v.index) == set(i.index) and len(v) == len(i)
        return [(k, [v.loc[k, "estimated_policy_value"], v.loc[k, "relative_estimated_policy_value"]] + read_interval(dict(i.loc[k]))) for k in v.index]
    if op == "performance":
        d = meta.evaluate_performance_of_estimators(ground_truth_policy_value=c["gt"], **me, **kw)
        return [(k, [v]) for k, v in d.items()]
    d = meta.summarize_estimators_comparison(ground_truth_policy_value=c["gt"], **me, **kw)
    return [(k, [d.loc[k, c["metric"]]]) for k in d.index]


def plot(meta, c, kw, names):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        meta.visualize_off_policy_estimates(alpha=c["alpha"], n_bootstrap_samples=3, random_state=c["rs"], is_relative=c["rel"], **kw)
        fig = plt.gcf()
        fig.canvas.draw()
        ax = fig.axes[0]
        labels = [t.get_text() for t in ax.get_xticklabels()]
        heights = [p.get_height() for p in ax.patches]
        back = {n.upper(): n for n in names}
        back.update({n: n for n in names})
        if len(back) < len(names) or len(set(n.upper() for n in names)) < len(names):
            raise AssertionError("ambiguous labels")
        return [(back[l], [h]) for l, h in zip(labels, heights)]
    finally:
        plt.close("all")


def run(case):
    if case["kind"] == "real":
        return real(case)
    rng = random.Random(case["seed"])
    nrng = np.random.RandomState(case["seed"])
    fam = case["fam"]
    Eval, base, need, opt, shared, routable = FAM[fam]
    n, K, L = rng.choice([2, 3, 5]), rng.choice([2, 3]), rng.choice([1, 2])
    reg = Registry()
    fresh = lambda f: nrng.randn(*shape_of(f, fam, n, K, L))
    fb, tok = {}, {}
    for f in need + [o for o in opt if rng.random() < .7]:
        if f == "reward":
            a = nrng.randn(n) + rng.choice([1.5, 1.5, 3.0, -1.5])
            if rng.random() < .1:
                a = a * 0
        elif f == "slate_id":
            a = np.sort(nrng.randint(0, max(1, n - 1), n)) + 5
        elif f in ("action", "position", "stratum_idx") and fam != "continuous":
            a = nrng.randint(0, 50, n) + len(tok) * 1000
        elif f == "position" and rng.random() < .2:
            fb[f] = None
            continue
        else:
            a = fresh(f)
        fb[f] = a
        tok[f] = q(reg.add(a))
    avg = fb["reward"].mean() if fam != "slate" else fb["reward"].sum() / len(np.unique(fb["slate_id"]))
    if fam == "continuous":
        tok["action_by_behavior_policy"] = tok["action"]
    if fam == "slate":
        tok.pop("context", None)
    log_fields = [f for f in need + opt if not (fam == "slate" and f == "context") and not (fam == "continuous" and f == "action")] + (["action_by_behavior_policy"] if fam == "continuous" else [])
    Spy = spy(base)
    ests, objs = [], []
    for name in case["ests"]:
        b = rng.randrange(1, 50)
        coef = [(f, rng.randrange(1, 10**4) / 8) for f in log_fields + shared + routable]
        ests.append(dict(name=name, base=q(b), coef=[dict(f=f, c=q(c)) for f, c in coef]))
        objs.append(Spy(name, float(b), coef, reg))
    keep = {k: (None if v is None else v.copy()) for k, v in fb.items()}
    log = {f: tok[f] for f in tok}
    m = guarded(lambda: Eval(bandit_feedback=fb, ope_estimators=objs))
    recs, touched = [], ""
    for c in case["calls"]:
        kw, targs, given = {}, {}, []
        for f in shared:
            a = fresh(f)
            kw[f] = a
            targs[f] = dict(mode="all", v=q(reg.add(a)))
        for f in routable:
            spec = c["args"].get(f, dict(mode="none"))
            if spec["mode"] == "all":
                a = fresh(f)
                kw[f] = a
                targs[f] = dict(mode="all", v=q(reg.add(a)))
            elif spec["mode"] == "dict":
                d, t = {}, {}
                for nm in spec["d"]:
                    d[nm] = fresh(f)
                    t[nm] = q(reg.add(d[nm]))
                kw[f] = d
                targs[f] = dict(mode="dict", d=t)
            else:
                targs[f] = dict(mode="none")
                if rng.random() < .3:
                    kw[f] = None
        kk = copy.deepcopy(kw)
        op = c["op"]
        names = [e["name"] for e in ests]
        if op == "plot" and (len({x.upper() for x in names}) < len(names) or (c["rel"] and avg <= 0) or fam == "slate" or len(set(names)) > 4):
            op = "values"
        r = m if m[0] == "err" else guarded((lambda: plot(m[1], c, kw, names)) if op == "plot" else (lambda: ask(m[1], dict(c, op=op), kw)))
        if kw.keys() != kk.keys() or any(not same(kw[f], kk[f]) for f in kk):
            touched = touched or "arguments of " + op
        recs.append(dict(op="performance" if op == "comparison" else op, args=targs, opts=dict(alpha=q(c["alpha"]), B=q(c["B"]), rs=q(c["rs"]), gt=q(c["gt"]), metric=c["metric"], rel=c["rel"]),
                         out=[dict(name=str(k), row=qa(list(map(float, v)))) for k, v in r[1]] if r[0] == "ok" else [], err="" if r[0] == "ok" else "%s: %s" % r[1:]))
    if fb.keys() != keep.keys() or any(not same(fb[f], keep[f]) for f in keep):
        touched = touched or "bandit_feedback"
    return dict(kind="spy", fam=fam, log=log, avg=q(avg), ests=ests, calls=recs, touched=touched)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return (a is None and b is None) or (a is not None and b is not None and np.array_equal(a, b))


# ----------------------------------------------------------- shipped estimators
def real(case):
    rng = random.Random(case["seed"])
    fam = case["fam"]
    ci = dict(alpha=.1, n_bootstrap_samples=20, random_state=rng.randrange(100))
    pairs, fb, kw = [], {}, {}          # (estimator, direct keyword arguments)
    if fam == "single":
        n, K, L = rng.choice([3, 6, 12]), 3, rng.choice([1, 2])
        g = c05.rlog(rng)
        log = ope.random_log(rng, n=n, n_actions=K, len_list=L)
        A = ope.arrays(log)
        names = rng.sample(list(ope.CLS), 4)
        fb = {f: A[f] for f in ("action", "position", "reward", "pscore")}
        fb["context"] = np.zeros((n, 2))
        kw = {"action_dist": A["action_dist"]}
        for f in ("estimated_rewards_by_reg_model", "estimated_pscore", "estimated_importance_weights"):
            kw[f] = A[f]
        for e in names:
            eps = e in ope.NEEDS_PS and rng.random() < .5
            pairs.append((ope.make(e, rng.choice(["1", "1/2"]), eps, estimator_name=e + "!"), ope.inputs(e, A, eps)))
        if rng.random() < .5:
            log = g["log"]
            n, K = len(log), len(log[0]["pi"])
            fb = dict(reward=np.array([num(r["r"]) for r in log]), action=np.array([r["a"] for r in log]), context=np.array([num(r["x"]) for r in log]), position=np.array([r["p"] for r in log]))
            kw = dict(action_embed=np.array([r["e"] for r in log]), pi_b=np.array([num(r["pb"]) for r in log]), action_dist=np.array([num(r["pi"]) for r in log]))
            if g["pea"]:
                kw["p_e_a"] = np.array([num(r) for r in g["pea"]])
            pairs = []
            for cls, nm in ((O.MarginalizedInverseProbabilityWeighting, "mipw"), (O.SelfNormalizedMarginalizedInverseProbabilityWeighting, "snmipw")):
                pairs.append((cls(n_actions=K, pi_a_x_e_estimator=c05.Prior(), estimator_name=nm), dict(fb, **kw)))
    elif fam == "multi":
        log = ope.random_log(rng, n=rng.choice([4, 9]), n_actions=3, len_list=rng.choice([1, 2]))
        for r in log:
            r.update(k=rng.choice([0, 1, 2]), pa=q(rng.uniform(.1, 1)), epa=q(rng.uniform(.1, 1)))
        A = ope.arrays(log)
        fb = {f: A[f] for f in ("action", "position", "reward", "pscore")}
        fb.update(stratum_idx=np.array([r["k"] for r in log]), pscore_avg=np.array([num(r["pa"]) for r in log]))
        kw = {f: A[f] for f in ("action_dist", "estimated_rewards_by_reg_model", "estimated_pscore")}
        kw["estimated_pscore_avg"] = np.array([num(r["epa"]) for r in log])
        for e in rng.sample(list(c03.CLS), 4):
            x = c03.make(e, rng.choice(["inf", "1"]), rng.random() < .5)
            pairs.append((x, c03.kwargs(e, A, log)))
    elif fam == "continuous":
        log = c04.rlog(rng)
        A = {k: np.array([num(r[s]) for r in log]) for k, s in (("action", "b"), ("reward", "r"), ("pscore", "ps"))}
        fb = A
        kw = dict(action_by_evaluation_policy=np.array([num(r["e"]) for r in log]), estimated_rewards_by_reg_model=np.array([num(r["q"]) for r in log]))
        for e in c04.CLS:
            d = dict(reward=A["reward"], pscore=A["pscore"], action_by_behavior_policy=A["action"], action_by_evaluation_policy=kw["action_by_evaluation_policy"])
            if e == "kernelized_dr":
                d["estimated_rewards_by_reg_model"] = kw["estimated_rewards_by_reg_model"]
            pairs.append((c04.CLS[e](kernel="gaussian", bandwidth=2.0), d))
    else:
        log, L, K = slate.random_log(rng, ragged=False)
        A = slate.arrays(log)
        fb = {f: A[f] for f in ("slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade")}
        fb["context"] = np.zeros((len(log), 2))
        kw = {f: A[f] for f in A if f.startswith("evaluation_") or f == "q_hat"}
        for e in rng.sample(list(slate.CLS), 4):
            pairs.append((slate.make(e, L, K), slate.inputs(e, A)))
    if case["dicts"] and fam != "slate":
        for f in list(kw):
            if f.startswith("estimated"):
                kw[f] = {x.estimator_name: kw[f] for x, d in pairs if f in d}
                # a mapping that names some estimators only
    direct = []
    for x, d in pairs:
        a = guarded(lambda: x.estimate_policy_value(**d))
        b = guarded(lambda: read_interval(x.estimate_interval(**d, **ci)))
        direct.append((a, b))
    okp = [(x, a, b) for (x, _), (a, b) in zip(pairs, direct) if a[0] == "ok" and b[0] == "ok"]
    rec = dict(kind="real", fam=fam, rows=[], err="")
    if not okp:
        return rec

    def go():
        m = FAM[fam][0](bandit_feedback=fb, ope_estimators=[x for x, _, _ in okp])
        return m.estimate_policy_values(**kw), m.estimate_intervals(**kw, **ci), m.estimate_policy_values(**kw)
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        return rec
    v, i, v2 = r[1]
    for x, a, b in okp:
        nm = x.estimator_name
        miss = [float("nan")]
        rec["rows"].append(dict(name=nm, m=qa([v.get(nm, float("inf")), v2.get(nm, float("inf"))] + (read_interval(i[nm]) if nm in i else miss)), d=qa([a[1], a[1]] + b[1])))
    return rec
