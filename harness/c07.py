import re
import numpy as np
from common import q, qa, num, guarded
import ope, slate, c03, c04, c05, c06
import obp.ope as O
from obp.ope import helper as H

PID, CHECKER = "C07", "CheckC07"
ASSUMPTIONS = ["percentiles are compared with the exact bootstrap distribution up to six standard deviations of the empirical distribution function",
               "the exact distribution is enumerated for at most 4 contributions and is binomial for two-valued contributions; other logs get the range, centre, nesting and reproducibility clauses",
               "the interval of marginalised IPW uses all embedding dimensions"]


def mc(chk):
    chk.model("MC_Interval")
    if not chk.quick:
        chk.model("MC_Interval", "MC_IntervalBig.cfg", workers=6)


def two(rng, rows, n):
    """n rounds that are copies of (at most) two of the given ones."""
    a, b = rng.choice(rows), rng.choice(rows)
    return [dict(rng.choice([a, b])) for _ in range(n)]


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def size():
        return rng.choice([1, 2, 3, 3, 4, 4, 7, 15, 24])

    def shape(mk):
        n = size()
        rows = mk(max(n, 2) if n <= 4 else 6)
        return rows[:n] if n <= 4 else (two(rng, rows, n) if rng.random() < .8 else rows)

    def add(kind, **k):
        B = rng.choice([1, 1, 2, 2, 400, 1500])
        if rng.random() < .15:          # the documented defaults: level 95%, 10000 resamples
            d = rng.random() < .4
            return out.append(dict(k, kind=kind, alpha=.05, default=["alpha"] + ["n_bootstrap_samples"] * d, B=10000 if d else B, seed=rng.randrange(10**6)))
        out.append(dict(k, kind=kind, alpha=rng.choice([.05, .1, .3, .4, .5, .01, round(rng.uniform(.02, .9), 3)]), B=B, seed=rng.randrange(10**6)))

    for _ in range(1 if chk.quick else 12):
        for est in ope.CLS:
            for _ in range(16):
                K, L = rng.randrange(2, 5), rng.choice([1, 1, 2])
                log = shape(lambda n: ope.random_log(rng, n=n, n_actions=K, len_list=L))
                lam = rng.choice(["0", "1/2", "1"]) if est.startswith("sg") else rng.choice(["inf", "1", "2", "0"])
                add("single", fam="single", est=est, log=log, lam=lam, eps=rng.random() < .3 and est in ope.NEEDS_PS, flags=["nopos"] if L == 1 and rng.random() < .5 else [])
        for est in c03.CLS:
            for _ in range(16):
                K, L = rng.randrange(2, 5), rng.choice([1, 1, 2])
                log = shape(lambda n: [dict(r, k=rng.choice([0, 1, 5]), pa=q(rng.uniform(.1, 1)), epa=q(rng.uniform(.1, 1))) for r in ope.random_log(rng, n=n, n_actions=K, len_list=L)])
                add("multi", fam="multi", est=est, log=log, lam=rng.choice(["inf", "1", "2"]), eps=rng.random() < .3, flags=["nopos"] if L == 1 and rng.random() < .5 else [])
        for est in slate.CLS:
            for _ in range(16):
                n = size()
                log, L, K = slate.random_log(rng, n=n if n <= 4 else 2, ragged=False, shuffle=False)
                if n > 4:
                    ids = sorted({x["s"] for x in log})
                    log = [dict(x, s=j) for j in range(n) for s in [rng.choice(ids)] for x in log if x["s"] == s]
                if rng.random() < .6:
                    rng.shuffle(log)
                add("slate", fam="slate", est=est, log=log, L=L, K=K)
        for est in c04.CLS:
            for _ in range(14):
                pool = [r for _ in range(8) for r in c04.rlog(rng)]
                log = shape(lambda n: [rng.choice(pool) for _ in range(n)])
                add("kernel", fam="kernel", est=est, log=log, kn=rng.choice(c04.KERNELS), h=rng.choice(["1", "2", "1/2"]))
        for _ in range(36):
            g = c05.rlog(rng)
            n = size()
            log = (g["log"] * 4)[:n] if n <= 4 else two(rng, g["log"], n)
            add("embed", fam="embed", est="mipw", log=log, pea=g["pea"], D=g["D"], sn=rng.random() < .5)
        for est in c06.CLS:
            for _ in range(8):
                K = rng.randrange(2, 5)
                log = shape(lambda n: ope.random_log(rng, n=n, n_actions=K, len_list=1))
                if len(log) < 2:
                    log = log + log
                add("tuning", fam="tuning", est=est, log=log, lams=c06.lams(rng, est, [log]), method=rng.choice(["mse", "slope"]), flags=[], eps=rng.random() < .4)
        for _ in range(60):
            n = rng.choice([2, 3, 5, 20])
            x = [rng.choice([0.0, 1.0, rng.uniform(0, 5), rng.gauss(1, 2)]) for _ in range(n)]
            out.append(dict(kind="bound", name=rng.choice(["hoeffding", "bernstein", "student"]), x=x, xmax=rng.choice([None, max(x), max(x) + 1.5]), delta=rng.choice([.05, .1, .5, rng.uniform(.01, .9)])))
    return out


def estimator(case):
    f, est, log = case["fam"], case["est"], case["log"]
    if f == "single":
        A = ope.arrays(log, case["flags"])
        return ope.make(est, case["lam"], case["eps"]), ope.inputs(est, A, case["eps"])
    if f == "multi":
        return c03.make(est, case["lam"], case["eps"]), c03.kwargs(est, ope.arrays(log, case["flags"]), log)
    if f == "slate":
        return slate.make(est, case["L"], case["K"]), slate.inputs(est, slate.arrays(log))
    if f == "kernel":
        A = {k: np.array([num(r[s]) for r in log]) for k, s in (("action_by_behavior_policy", "b"), ("action_by_evaluation_policy", "e"), ("reward", "r"), ("pscore", "ps"), ("estimated_rewards_by_reg_model", "q"))}
        if est != "kernelized_dr":
            A.pop("estimated_rewards_by_reg_model")
        return c04.CLS[est](kernel=case["kn"], bandwidth=num(case["h"])), A
    if f == "embed":
        kw = dict(reward=np.array([num(r["r"]) for r in log]), action=np.array([r["a"] for r in log]), action_embed=np.array([r["e"] for r in log]),
                  pi_b=np.array([num(r["pb"]) for r in log]), action_dist=np.array([num(r["pi"]) for r in log]), context=np.array([num(r["x"]) for r in log]), position=np.array([r["p"] for r in log]))
        if case["pea"]:
            kw["p_e_a"] = np.array([num(r) for r in case["pea"]])
        cls = O.SelfNormalizedMarginalizedInverseProbabilityWeighting if case["sn"] else O.MarginalizedInverseProbabilityWeighting
        return cls(n_actions=len(log[0]["pi"]), pi_a_x_e_estimator=c05.Prior()), kw
    A = ope.arrays(log, case["flags"])
    kw = dict(action_dist=A["action_dist"], position=A["position"], reward=A["reward"], action=A["action"])
    if "dr" in est:
        kw["estimated_rewards_by_reg_model"] = A["estimated_rewards_by_reg_model"]
    kw["estimated_pscore" if case["eps"] else "pscore"] = A["estimated_pscore" if case["eps"] else "pscore"]
    return c06.CLS[est](lambdas=[num(v) for v in case["lams"]], tuning_method=case["method"], use_estimated_pscore=case["eps"]), kw


def read(d):
    """(level, [mean, lo, hi]) of a returned dictionary."""
    lo = [k for k in d if k.endswith("% CI (lower)")]
    hi = [k for k in d if k.endswith("% CI (upper)")]
    if len(lo) != 1 or len(hi) != 1 or "mean" not in d or lo[0].split("%")[0] != hi[0].split("%")[0]:
        raise KeyError("keys %s" % sorted(d))
    return float(lo[0].split("%")[0]), [d["mean"], d[lo[0]], d[hi[0]]]


def run(case):
    if case["kind"] == "bound":
        x = np.array(case["x"])
        fn = dict(hoeffding=H.estimate_hoeffding_lower_bound, bernstein=H.estimate_bernstein_lower_bound, student=H.estimate_student_t_lower_bound)[case["name"]]
        kw = dict(x=x, delta=case["delta"])
        if case["name"] != "student":
            kw["x_max"] = case["xmax"]
        r = guarded(lambda: fn(**kw))
        return dict(kind="bound", name=case["name"], x=qa(x), xmax=q(case["xmax"] if case["xmax"] is not None else x.max()), delta=q(case["delta"]), res=q(r[1]) if r[0] == "ok" else "nan", err="" if r[0] == "ok" else "%s: %s" % r[1:])
    B = case["B"]
    rec = {k: case[k] for k in ("fam", "est", "log", "lam", "eps", "kn", "h", "pea", "D", "sn") if k in case}
    nanout = dict(mean="nan", lo="nan", hi="nan")
    rec.update(kind="interval", alpha=q(case["alpha"]), B=B, level="0", out=nanout, wide=nanout, rep=True, err="")

    def go():
        e, kw = estimator(case)
        def call(al):
            a = dict(alpha=al, n_bootstrap_samples=B, random_state=case["seed"])
            for k in case.get("default", []):
                if k != "alpha" or al == case["alpha"]:
                    a.pop(k)
            return e.estimate_interval(**kw, **a)
        d = call(case["alpha"])
        w = call(case["alpha"] / 4)
        again = call(case["alpha"])
        return d, w, again, getattr(e, "best_hyperparam", None)
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        if case["fam"] == "tuning":
            rec["lam"] = "0"
        return rec
    d, w, again, best = r[1]
    if case["fam"] == "tuning":
        rec["lam"] = q(best)
    lev, v = read(d)
    _, vw = read(w)
    rec["level"] = q(lev)
    rec["out"] = dict(zip(("mean", "lo", "hi"), qa(v)))
    rec["wide"] = dict(zip(("mean", "lo", "hi"), qa(vw)))
    rec["rep"] = read(again)[1] == v or any(x != x for x in v)
    return rec
