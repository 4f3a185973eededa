import numpy as np
from common import q, qa, num, guarded
import nuis, c10
import obp.ope as O

PID, CHECKER = "C11", "CheckC11"
ASSUMPTIONS = ["base models are stand-ins that record their training data and answer with affine / logistic functions of the features", "without propensities the uniform propensity 1/n_actions is meant, as documented"]


def mc(chk):
    chk.gen = chk.model("MC_RegWeights", out="w.ndjson")
    if not chk.quick:
        chk.model("MC_RegWeights", "MC_RegWeightsBig.cfg", workers=6)


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def add(kind, log, K, L, d, emb):
        method = rng.choice(["normal", "iw", "mrdr"])
        out.append(dict(kind=kind, log=log, K=K, L=L, d=d, emb=emb, method=method, clf=rng.random() < .5, nops=rng.random() < .2, nopos=L == 1 and rng.random() < .5, steps=rng.choice([1, 1, 2, 3]),
                        new=[[rng.choice([0.0, rng.gauss(0, 1)]) for _ in range(d)] for _ in range(rng.randrange(1, 4))], own_emb=rng.random() < .7, via=rng.choice(["fit", "fit", "fit_predict"]), seed=rng.randrange(10**6),
                        flags=[f for f in ("int", "strided", "fortran") if rng.random() < .2]))
    gen = rng.sample(chk.gen, min(len(chk.gen), 250 if chk.quick else len(chk.gen)))
    for log in gen:
        add("spec-log", log, 2, 2, 1, None)
    while len(out) < (700 if chk.quick else 9000):
        K, L, d = rng.randrange(2, 5), rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        n = rng.choice([1, 2, 3, 5, 9, 14])
        raw = [dict(a=rng.randrange(K), p=rng.randrange(L), r=rng.choice([0, 1, rng.gauss(0, 2)])) for _ in range(n)]
        if not c10.trainable(raw, 1, L):
            continue
        e = rng.choice([1, 2, 3])
        add("random-log", c10.dress(rng, raw, K, L, d), K, L, d, [[a + rng.randrange(0, 8) / 16 for _ in range(e)] for a in range(K)])
    return out


def run(case):
    nuis.reset(case["seed"])
    log, K, L = case["log"], case["K"], case["L"]
    emb = np.array(case["emb"]) if case["own_emb"] and case["emb"] else np.eye(K)
    rec = dict(log=log, emb=qa(emb), L=L, method=case["method"], clf=case["clf"], nops=case["nops"], new=qa(case["new"]) if case["via"] == "fit" else [r["x"] for r in log], steps=[])
    A = dict(context=np.array([num(r["x"]) for r in log]), action=np.array([r["a"] for r in log]), reward=np.array([num(r["r"]) for r in log]))
    pi = np.array([num(r["pi"]) for r in log])
    if "int" in case["flags"] and all(float(v).is_integer() for v in A["reward"]):
        A["reward"] = A["reward"].astype(int)
    if "strided" in case["flags"]:
        A = {k: np.repeat(v, 2, axis=0)[::2] for k, v in A.items()}
    if "fortran" in case["flags"]:
        A["context"], pi = np.asfortranarray(A["context"]), np.asfortranarray(pi)
    if not case["nops"]:
        A["pscore"] = np.array([num(r["ps"]) for r in log])
    if not case["nopos"]:
        A["position"] = np.array([r["p"] for r in log])
    if case["method"] != "normal" or case["seed"] % 2:
        A["action_dist"] = pi
    new = np.array(num(rec["new"]))
    m = guarded(lambda: O.RegressionModel(base_model=(nuis.Clf if case["clf"] else nuis.Regr)(), n_actions=K, len_list=L, action_context=emb if case["own_emb"] and case["emb"] else None, fitting_method=case["method"]))
    for s in range(case["steps"]):
        nuis.FITS.clear()
        st = dict(fits=[], cells=[], err="")

        def go():
            if case["via"] == "fit":
                m[1].fit(**A)
                return m[1].predict(context=new)
            return m[1].fit_predict(**A)
        r = m if m[0] == "err" else guarded(go)
        if r[0] == "err":
            st["err"] = "%s: %s" % r[1:]
        else:
            R = np.asarray(r[1], dtype=float)
            st["fits"] = nuis.fits([num(x["x"]) for x in log])
            if R.shape == (len(new), K, L):
                st["cells"] = [dict(i=i + 1, a=a, p=p, v=q(R[i, a, p])) for i in range(len(new)) for a in range(K) for p in range(L)]
        rec["steps"].append(st)
    return rec
