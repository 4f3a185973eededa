import numpy as np
from common import q, qa, num, guarded
import obp.ope as O
from obp.ope import estimators_continuous as EC

PID, CHECKER = "C04", "CheckC04"
ASSUMPTIONS = ["the self-normalised estimator is undefined when every kernel weight vanishes"]
CLS = dict(kernelized_ipw=O.KernelizedInverseProbabilityWeighting, kernelized_snipw=O.KernelizedSelfNormalizedInverseProbabilityWeighting, kernelized_dr=O.KernelizedDoublyRobust)
KERNELS = ["triangular", "epanechnikov", "cosine", "gaussian"]


def mc(chk):
    chk.gen = chk.model("MC_Kernel", out="k.ndjson")
    if not chk.quick:
        chk.model("MC_Kernel", "MC_KernelBig.cfg", workers=6)


def calls(rng, hs):
    return [dict(est=e, kn=k, h=rng.choice(hs)) for e in CLS for k in KERNELS]


def rlog(rng, n=None):
    n = n or rng.choice([1, 2, 3, 5, 9, 20])
    shift = rng.choice([0.0, 0.0, 100.0, -3.5])
    sp = rng.choice([.1, 1.0, 1.0, 10.0])
    exact = rng.random() < .4
    log = []
    for _ in range(n):
        b = shift + (rng.randrange(-16, 17) / 8 * sp if exact else rng.gauss(0, sp))
        e = rng.choice([b, b + (rng.randrange(-12, 13) / 8 if exact else rng.gauss(0, 1)), b + 1.0, b - .5])
        log.append(dict(b=q(b), e=q(e), r=q(rng.choice([0.0, 1.0, rng.gauss(0, 3), rng.randrange(-20, 20) / 4])), ps=q(rng.choice([1.0, .5, 2.0, rng.uniform(.01, 5)])), q=q(rng.choice([0.0, rng.gauss(0, 2)]))))
    return log


def cases(chk):
    rng = chk.rng("cases")
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(400, len(chk.gen)))
    out = [dict(kind="spec-log", log=l, flags=[], calls=calls(rng, ["1", "1/2", "4", "1/4"])) for l in gen]
    for _ in range(300 if chk.quick else 5000):
        out.append(dict(kind="random-log", log=rlog(rng), flags=[f for f in ("strided",) if rng.random() < .3], calls=calls(rng, ["1", "1/2", "2", q(rng.uniform(.05, 8))])))
    for _ in range(4 if chk.quick else 40):
        out.append(dict(kind="large-log", log=rlog(rng, rng.choice([130, 300])), flags=[], calls=rng.sample(calls(rng, ["1", "1/2", "2"]), 4)))
    for _ in range(10 if chk.quick else 100):
        log = rlog(rng)
        for r in log:
            r.update(b=str(rng.randrange(-3, 4)), e=str(rng.randrange(-3, 4)), r=str(rng.randrange(0, 3)))
        out.append(dict(kind="integer-actions", log=log, flags=["int"], calls=calls(rng, ["1", "2", "3"])))
    for k in KERNELS:
        us = [0.0, 1.0, -1.0, .5, -.5, 1.0000001, -2.0, 3.0, 50.0, -.999999] + [rng.gauss(0, 1.2) for _ in range(40 if chk.quick else 400)]
        out.append(dict(kind="kernel", kn=k, us=us))
    return out


def run(case):
    if case["kind"] == "kernel":
        r = guarded(lambda: EC.kernel_functions[case["kn"]](np.array(case["us"])))
        ok = r[0] == "ok" and np.shape(r[1]) == (len(case["us"]),)
        return dict(kind="kernel", kn=case["kn"], us=qa(case["us"]), ks=qa(r[1]) if ok else [], err="" if ok else str(r[1:])[:200])
    log = case["log"]
    dt = int if "int" in case["flags"] else float
    A = {k: np.array([num(r[s]) for r in log]) for k, s in (("action_by_behavior_policy", "b"), ("action_by_evaluation_policy", "e"), ("reward", "r"), ("pscore", "ps"), ("estimated_rewards_by_reg_model", "q"))}
    for k in ("action_by_behavior_policy", "action_by_evaluation_policy", "reward"):
        A[k] = A[k].astype(dt)
    if "strided" in case["flags"]:
        A = {k: np.repeat(v, 2)[::2] for k, v in A.items()}
    rec = []
    for c in case["calls"]:
        kw = {k: v for k, v in A.items() if k != "estimated_rewards_by_reg_model" or c["est"] == "kernelized_dr"}
        h = num(c["h"])
        r = guarded(lambda: CLS[c["est"]](kernel=c["kn"], bandwidth=int(h) if h == int(h) and len(log) % 2 else h).estimate_policy_value(**kw))
        rec.append(dict(c, res=q(r[1]) if r[0] == "ok" and np.ndim(r[1]) == 0 else "nan", err="" if r[0] == "ok" else "%s: %s" % r[1:]))
    return dict(kind="value", log=log, calls=rec)
