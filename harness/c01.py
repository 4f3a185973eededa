from fractions import Fraction
from common import q, num, guarded
import ope

PID, CHECKER = "C01", "CheckC01"
ASSUMPTIONS = ["floating-point error of the real code stays within 1e-9 relative to the mean absolute contribution",
               "self-normalised estimators are undefined when every weight is zero"]


def mc(chk):
    chk.gen = chk.model("MC_OpeLog", out="logs.ndjson")
    chk.model("MC_Num")
    if not chk.quick:
        chk.model("MC_OpeLog", "MC_OpeLogBig.cfg", workers=6)


def lambdas(rng, est, log):
    if est in ("sg-ipw", "sg-dr"):
        return ["0", "1", rng.choice(["1/2", "1/4", "1/1024", "3/4"])]
    out = ["inf", rng.choice(["0", "1", "2", "1/2", q(rng.uniform(0.1, 20))])]
    exact = [w for w in ope.weights(log) if w > 0 and float(w) == w and w.denominator & (w.denominator - 1) == 0]
    if exact:
        out.append(str(rng.choice(exact)))   # boundary: lambda equals one of the weights
    if rng.random() < 0.5:
        out.append("0")
    return out


def calls(rng, log, full):
    cs = []
    for est in ope.CLS:
        if est in ope.HAS_LAM:
            ls = lambdas(rng, est, log)
            if not full:
                ls = [rng.choice(ls), ls[0]]
        else:
            ls = ["inf"]
        for lam in ls:
            eps = est in ope.NEEDS_PS and rng.random() < 0.3 and all("eps" in r for r in log)
            cs.append(dict(est=est, lam=lam, eps=eps))
    return cs


def cases(chk):
    rng = chk.rng("cases")
    out = []
    logs = chk.gen
    pick = logs if not chk.quick else rng.sample(logs, min(len(logs), 500))
    for log in pick:
        out.append(dict(kind="spec-log", log=log, flags=[], calls=calls(rng, log, False)))
    for i in range(400 if chk.quick else 6000):
        log = ope.random_log(rng)
        flags = [f for f in ("int32", "fortran", "strided") if rng.random() < 0.25]
        L = len(log[0]["pi"][0])
        if L == 1 and rng.random() < 0.5:
            flags.append("nopos")
        if all(Fraction(r["r"]).denominator == 1 for r in log):
            flags.append("intreward")
        cs = calls(rng, log, True)
        out.append(dict(kind="random-log", log=log, flags=flags, calls=cs))
        if rng.random() < .3:   # estimators that have answered for another log before
            out[-1]["before"] = ope.random_log(rng)
        if rng.random() < 0.3:  # same rounds, another order
            perm = log[:]
            rng.shuffle(perm)
            out.append(dict(kind="permuted-log", log=perm, flags=flags, calls=cs))
    for i in range(6 if chk.quick else 60):
        log = ope.random_log(rng, n=rng.choice([120, 257, 300]), n_actions=rng.choice([3, 20]), len_list=rng.choice([1, 2, 3]))
        out.append(dict(kind="large-log", log=log, flags=[f for f in ("int32", "strided") if rng.random() < .5], calls=rng.sample(calls(rng, log, False), 6)))
    return out


def run(case):
    A = ope.arrays(case["log"], case["flags"])
    rec = []
    for c in case["calls"]:
        lam = c["lam"] if not (c["lam"] == "inf" and len(case["log"]) % 2) else None  # default is infinity
        if c["est"] in ("sg-ipw", "sg-dr", "dr-os"):
            lam = c["lam"]
        def go():
            e = ope.make(c["est"], lam, c["eps"])
            if case.get("before"):
                e.estimate_policy_value(**ope.inputs(c["est"], ope.arrays(case["before"]), c["eps"]))
            return e.estimate_policy_value(**ope.inputs(c["est"], A, c["eps"]))
        r = guarded(go)
        if r[0] == "ok":
            import numpy as np
            v = r[1]
            res = q(v) if np.ndim(v) == 0 else "nan"
            rec.append(dict(c, res=res, err=""))
        else:
            rec.append(dict(c, res="nan", err="%s: %s" % r[1:]))
    return dict(log=case["log"], calls=rec)
