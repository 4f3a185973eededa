import numpy as np
from common import q, qa, num, guarded
import nuis, slate
import obp.ope as O

PID, CHECKER = "C12", "CheckC12"
ASSUMPTIONS = ["base models are stand-ins that record their training data and answer with affine functions of the features", "rows are in the documented order (slate by slate, slot by slot)"]


def mc(chk):
    chk.gen = chk.model("MC_SlateReg", out="s.ndjson")
    if not chk.quick:
        chk.model("MC_SlateReg", "MC_SlateRegBig.cfg", workers=6)


def one(rng, L, K, d, i):
    s = dict(x=qa([i + rng.randrange(0, 16) / 16] + [rng.gauss(0, 1) for _ in range(d - 1)]), a=[], r=[], cb=[], ce=[], d=[])
    cb = ce = 1.0
    for l in range(L):
        cb *= rng.choice([1.0, .5, .25, rng.uniform(.1, 1)])
        ce *= rng.choice([1.0, .5, .75, rng.uniform(.1, 1)])
        s["a"].append(rng.randrange(K))
        s["r"].append(q(rng.choice([0.0, 1.0, rng.gauss(0, 2)])))
        s["cb"].append(q(cb))
        s["ce"].append(q(ce))
        s["d"].append(qa(slate.dyadic_dist(rng, K)))
    return s


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def add(kind, log, L, K, d):
        out.append(dict(kind=kind, log=log, L=L, K=K, d=d, method=rng.choice(["normal", "iw"]), steps=rng.choice([1, 1, 2]), via=rng.choice(["fit", "fit_predict"]), seed=rng.randrange(10**6),
                        new=[one(rng, L, K, d, 50 + i) for i in range(rng.randrange(1, 4))], flags=[f for f in ("int32", "strided") if rng.random() < .2]))
    for log in rng.sample(chk.gen, min(len(chk.gen), 250 if chk.quick else len(chk.gen))):
        add("spec-log", log, 3, 2, 1)
    for _ in range(350 if chk.quick else 5000):
        L, K, d = rng.choice([1, 2, 3, 4]), rng.randrange(2, 5), rng.choice([1, 2, 3])
        add("random-log", [one(rng, L, K, d, i) for i in range(rng.choice([1, 2, 3, 6]))], L, K, d)
    return out


def run(case):
    nuis.reset(case["seed"])
    log, L, K = case["log"], case["L"], case["K"]
    flat = lambda k: np.array([num(v) for s in log for v in s[k]])
    ctx = np.array([num(s["x"]) for s in log])
    A = dict(context=ctx, action=np.array([a for s in log for a in s["a"]]), reward=flat("r"), pscore_cascade=flat("cb"), evaluation_policy_pscore_cascade=flat("ce"),
             evaluation_policy_action_dist=np.array([num(v) for s in log for l in s["d"] for v in l]))
    if "int32" in case["flags"]:
        A["action"] = A["action"].astype(np.int32)
    if "strided" in case["flags"]:
        A = {k: np.repeat(v, 2, axis=0)[::2] for k, v in A.items()}
    new = case["new"] if case["via"] == "fit" else log
    rec = dict(log=log, L=L, K=K, d=case["d"], method=case["method"], steps=[])
    m = guarded(lambda: O.SlateRegressionModel(base_model=nuis.Regr(), len_list=L, n_unique_action=K, fitting_method=case["method"]))
    for _ in range(case["steps"]):
        nuis.FITS.clear()
        st = dict(fits=[], new=new, q=[], err="")

        def go():
            if case["via"] == "fit":
                m[1].fit(**A)
                return m[1].predict(context=np.array([num(s["x"]) for s in new]), action=np.array([a for s in new for a in s["a"]]))
            return m[1].fit_predict(**A)
        r = m if m[0] == "err" else guarded(go)
        if r[0] == "err":
            st["err"] = "%s: %s" % r[1:]
        else:
            st["fits"] = nuis.fits(ctx)
            R = np.asarray(r[1], dtype=float)
            if R.shape == (len(new) * L * K,):
                st["q"] = qa(R.reshape(len(new), L, K))
        rec["steps"].append(st)
    return rec
