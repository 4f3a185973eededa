from fractions import Fraction
import numpy as np
from common import q, num, guarded
import ope
import obp.ope as O

PID, CHECKER = "C03", "CheckC03"
ASSUMPTIONS = ["when a stratum's contributions have (nearly) zero variance only finiteness and the convex hull of the stratum estimates are required"]
CLS = dict(multi_ipw=O.MultiLoggersNaiveInverseProbabilityWeighting, multi_bal_ipw=O.MultiLoggersBalancedInverseProbabilityWeighting,
           multi_weighted_ipw=O.MultiLoggersWeightedInverseProbabilityWeighting, multi_dr=O.MultiLoggersNaiveDoublyRobust,
           multi_bal_dr=O.MultiLoggersBalancedDoublyRobust, multi_weighted_dr=O.MultiLoggersWeightedDoublyRobust)


def mc(chk):
    chk.gen = chk.model("MC_MultiLog", out="m.ndjson")
    if not chk.quick:
        chk.model("MC_MultiLog", "MC_MultiLogBig.cfg", workers=6)


def calls(rng, log):
    cs = []
    for est in CLS:
        ls = ["inf", rng.choice(["1", "2", "1/2", "0", q(rng.uniform(.2, 9))])]
        ex = [w for w in ope.weights(log) if w > 0 and w.denominator & (w.denominator - 1) == 0]
        if ex and rng.random() < .4:
            ls.append(str(rng.choice(ex)))
        for l in ls:
            cs.append(dict(est=est, lam=l, eps=rng.random() < .3 and "eps" in log[0]))
    return cs


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(len(chk.gen), 300))
    for log in gen:
        out.append(dict(kind="spec-log", log=log, flags=[], calls=calls(rng, log)))
    for it in range(256 if chk.quick else 4100):
        big = it < (6 if chk.quick else 60)
        log = ope.random_log(rng, n=rng.choice([120, 260]), n_actions=rng.choice([3, 20])) if big else ope.random_log(rng)
        K = rng.choice([1, 2, 2, 3, 4])
        labels = rng.choice([list(range(K)), rng.sample(range(12), K), rng.sample(range(1000), K)])
        for r in log:
            r["k"] = rng.choice(labels)
            r["pa"] = q(rng.choice([1.0, .5, .25, rng.uniform(.02, 1)]))
            r["epa"] = q(rng.choice([1.0, .5, rng.uniform(.02, 1)]))
        if rng.random() < .3:
            log.sort(key=lambda r: r["k"])
        if rng.random() < .15:
            for r in log:                       # reward model right on every logged round
                r["q"][r["a"]][r["p"]] = r["r"]
        L = len(log[0]["pi"][0])
        flags = [f for f in ("int32", "fortran", "strided") if rng.random() < .2]
        if L == 1 and rng.random() < .5:
            flags.append("nopos")
        cs = calls(rng, log)
        if big:
            out.append(dict(kind="large-log", log=log, flags=flags, calls=rng.sample(cs, 6)))
            continue
        out.append(dict(kind="random-log", log=log, flags=flags, calls=cs))
        if rng.random() < .3:
            out[-1]["before"] = [dict(r, k=rng.choice(labels), pa=q(rng.uniform(.1, 1)), epa=q(rng.uniform(.1, 1))) for r in ope.random_log(rng)]
        if rng.random() < .3:
            perm = [dict(r, k=r["k"] + 3) for r in log]
            rng.shuffle(perm)
            out.append(dict(kind="permuted-relabelled", log=perm, flags=flags, calls=cs))
    return out


def kwargs(est, A, log):
    k = dict(action_dist=A["action_dist"], position=A["position"], reward=A["reward"], action=A["action"])
    if "bal" in est:
        k.update(pscore_avg=np.array([num(r["pa"]) for r in log]), estimated_pscore_avg=np.array([num(r.get("epa", r["pa"])) for r in log]))
    else:
        k.update(pscore=A["pscore"], estimated_pscore=A["estimated_pscore"])
    if est.endswith("dr"):
        k["estimated_rewards_by_reg_model"] = A["estimated_rewards_by_reg_model"]
    if "weighted" in est:
        k["stratum_idx"] = np.array([r["k"] for r in log])
    return k


def make(est, lam, eps):
    return CLS[est](lambda_=num(lam), use_estimated_pscore=bool(eps))


def run(case):
    log = case["log"]
    A = ope.arrays(log, case["flags"])
    rec = []
    for c in case["calls"]:
        def go():
            e = make(c["est"], c["lam"], c["eps"])
            if case.get("before"):
                e.estimate_policy_value(**kwargs(c["est"], ope.arrays(case["before"]), case["before"]))
            return e.estimate_policy_value(**kwargs(c["est"], A, log))
        r = guarded(go)
        rec.append(dict(c, res=q(r[1]) if r[0] == "ok" and np.ndim(r[1]) == 0 else "nan", err="" if r[0] == "ok" else "%s: %s" % r[1:]))
    return dict(log=log, calls=rec)
