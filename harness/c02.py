import numpy as np
from common import q, guarded
import slate

PID, CHECKER = "C02", "CheckC02"
ASSUMPTIONS = ["floating-point error of the real code stays within 1e-9 relative to the mean absolute contribution",
               "a self-normalised value is undefined when a normaliser is zero",
               "positions are smaller than the declared slate length"]


def mc(chk):
    chk.gen = chk.model("MC_Slate", None if chk.quick else "MC_SlateBig.cfg", out="logs.ndjson")


def cases(chk):
    rng = chk.rng("cases")
    out = [dict(kind="spec-log", log=l, L=2, K=2) for l in (rng.sample(chk.gen, 400) if chk.quick else chk.gen)]
    for _ in range(700 if chk.quick else 8000):
        log, L, K = slate.random_log(rng)
        out.append(dict(kind="random-log", log=log, L=L, K=K))
        if rng.random() < .3:
            perm = log[:]
            rng.shuffle(perm)
            out.append(dict(kind="permuted-log", log=perm, L=L, K=K))
    for _ in range(200 if chk.quick else 2000):
        c = rng.choice(out[-600:])
        if "before" not in c and rng.random() < .8:
            c["before"] = slate.random_log(rng, L=c["L"], K=c["K"])[0]
    for _ in range(4 if chk.quick else 40):
        log, L, K = slate.random_log(rng, n=rng.choice([24, 40, 60]), L=rng.choice([2, 3]), K=rng.choice([3, 9]))
        big = rng.choice([0, 10 ** 6])
        out.append(dict(kind="large-log", log=[dict(x, s=x["s"] + big) for x in log], L=L, K=K))
    return out


def run(case):
    A = slate.arrays(case["log"])
    if len(case["log"]) % 3 == 1:
        A = {k: np.repeat(v, 2)[::2] for k, v in A.items()}
    rec = []
    for est in slate.CLS:
        def go():
            e = slate.make(est, case["L"], case["K"])
            if case.get("before"):
                e.estimate_policy_value(**slate.inputs(est, slate.arrays(case["before"])))
            return e.estimate_policy_value(**slate.inputs(est, A))
        r = guarded(go)
        if r[0] == "ok":
            rec.append(dict(est=est, res=q(r[1]) if np.ndim(r[1]) == 0 else "nan", err=""))
        else:
            rec.append(dict(est=est, res="nan", err="%s: %s" % r[1:]))
    return dict(log=case["log"], calls=rec)
