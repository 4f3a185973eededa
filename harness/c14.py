import math, random
import numpy as np
from common import q, qa, ia, num, guarded
from obp.policy import LinEpsilonGreedy, LinUCB, LinTS, LogisticEpsilonGreedy, LogisticUCB, LogisticTS

PID, CHECKER = "C14", "CheckC14"
ASSUMPTIONS = ["the optimiser of the logistic fit reaches a gradient below 1e-2", "selection frequencies are compared at 6.5 standard deviations"]
CLS = dict(lineg=LinEpsilonGreedy, linucb=LinUCB, lints=LinTS, logeg=LogisticEpsilonGreedy, logucb=LogisticUCB, logts=LogisticTS)


def mc(chk):
    chk.gen = chk.model("MC_Contextual", out="ctx.ndjson")
    if not chk.quick:
        chk.model("MC_Contextual", "MC_ContextualBig.cfg", workers=6)
        chk.gen += chk.model("MC_Contextual", "MC_Contextual1.cfg", out="ctx1.ndjson")


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def eps(pol):
        return rng.choice(["0", "0", "1/2"]) if pol in ("lineg", "logeg") else rng.choice(["0", "1/2", "1", "3"])
    for g in rng.sample(chk.gen, min(len(chk.gen), 300 if chk.quick else 6000)):
        pol = rng.choice(list(CLS))
        ops = g["ops"] + [dict(op="select", a=0, r="0", x=["1"] * g["d"])]
        out.append(dict(kind="spec-trace", pol=pol, eps=eps(pol), K=2, L=rng.choice([1, 2]), d=g["d"], b=g["b"], ops=ops, lam="1", alpha="1", seed=rng.randrange(10**6)))
    for _ in range(220 if chk.quick else 3000):
        pol = rng.choice(list(CLS))
        K, d = rng.randrange(2, 5), rng.choice([1, 2, 3])
        ops = []
        for _ in range(rng.randrange(4, 40)):
            x = qa([rng.randrange(-16, 17) / 8 for _ in range(d)])
            z = rng.random()
            if z < .3:
                ops.append(dict(op="select", a=0, r="0", x=x))
            elif z < .34:
                ops.append(dict(op="init", a=0, r="0", x=[]))
            else:
                ops.append(dict(op="update", a=rng.randrange(K), r=str(rng.randrange(2)) if pol.startswith("log") else q(rng.choice([0., 1., rng.randrange(-9, 9) / 4])), x=x))
        out.append(dict(kind="random-trace", pol=pol, eps=eps(pol), K=K, L=rng.randrange(1, K + 1), d=d, b=rng.choice([1, 1, 2, 3, 5, 11]), ops=ops,
                        lam=rng.choice(["1", "1/2", "4"]), alpha=rng.choice(["1", "2", "1/2"]), seed=rng.randrange(10**6)))
    for _ in range(60 if chk.quick else 400):
        pol = rng.choice(["lineg", "logeg", "lints", "lints", "logts", "logts"])
        K, d = (2 if pol in ("lints", "logts") else rng.randrange(2, 5)), rng.choice([1, 2])
        L = rng.choice([1, 1, K, rng.randrange(1, K + 1)])
        log = pol.startswith("log")
        h = [dict(a=rng.randrange(K), r=str(rng.randrange(2)) if log else q(rng.randrange(-4, 9) / 4), x=qa([rng.randrange(-8, 9) / (4 if log else 8) for _ in range(d)]))
             for _ in range(rng.randrange(0, 30 if log else 14))]
        x = qa([rng.choice([-1, 1]) * rng.randrange(2, 9) / 8 for _ in range(d)])
        out.append(dict(kind="stat", pol=pol, eps=rng.choice(["1/4", "1/2"]), K=K, L=L, d=d, b=rng.choice([1, 2, 4]), h=h, x=x, n=2500,
                        lam=rng.choice(["1", "1", "2"]), alpha=rng.choice(["1", "1", "2", "1/2"]), seed=rng.randrange(10**6)))
    return out


def make(c):
    kw = dict(dim=c["d"], n_actions=c["K"], len_list=c["L"], batch_size=c["b"], random_state=c["seed"])
    if c["pol"] not in ("lints", "logts"):
        kw["epsilon"] = float(num(c["eps"]))
    if c["pol"].startswith("log"):
        kw.update(alpha_=float(num(c["alpha"])), lambda_=float(num(c["lam"])))
    return CLS[c["pol"]](**kw)


def models(p, c):
    """posterior means and precisions of the logistic models, through their public predictions."""
    if not c["pol"].startswith("log"):
        return [], []
    m, qq = [], []
    for mod in p.model_list:
        s = 0.25
        row = []
        for i in range(c["d"]):
            e = np.zeros((1, c["d"]))
            e[0, i] = s
            pr = float(np.asarray(mod.predict_proba(e)).reshape(-1)[0])
            row.append(math.log(pr / (1 - pr)) / s)
        m.append(qa(row))
        qq.append(qa(np.asarray(float(num(c["alpha"])) / np.asarray(mod.sd()))))
    return m, qq


def run(case):
    rec = dict(case, err="", m0=[], q0=[], again=[], fresh=[])
    vec = lambda x: np.array([num(x)], dtype=float)

    if case["kind"] == "stat":
        rec["freq"], rec["lists"] = [0] * case["K"], []

        def go():
            p = make(case)
            for o in case["h"]:
                p.update_params(action=o["a"], reward=num(o["r"]), context=vec(o["x"]))
            rec["m0"], rec["q0"] = models(p, case)
            lists = {}
            for _ in range(case["n"]):
                sel = tuple(ia(p.select_action(vec(case["x"]))))
                rec["freq"][sel[0]] += 1
                lists[sel] = lists.get(sel, 0) + 1
            rec["lists"] = [dict(sel=list(k), n=v) for k, v in sorted(lists.items())]
    else:
        rec["ops"] = []

        def go():
            p = make(case)
            rec["m0"], rec["q0"] = models(p, case)
            for o in case["ops"]:
                ob = dict(o, sel=[], theta=[])
                if o["op"] == "update":
                    p.update_params(action=o["a"], reward=num(o["r"]), context=vec(o["x"]))
                elif o["op"] == "select":
                    ob["sel"] = ia(p.select_action(vec(o["x"])))
                    if hasattr(p, "theta_hat"):
                        ob["theta"] = qa(np.asarray(p.theta_hat).T)
                else:
                    p.initialize()
                ob["trial"], ob["counts"] = int(p.n_trial), ia(p.action_counts)
                ob["m"], ob["q"] = models(p, case)
                rec["ops"].append(ob)
            p.initialize()
            f = make(case)
            x1 = vec(["1"] * case["d"])
            probe = [dict(op="select")] * 2 + [o for o in case["ops"] if o["op"] == "update"][:6] + [dict(op="select")] * 3
            for o in probe:
                for pol, dst in ((p, rec["again"]), (f, rec["fresh"])):
                    if o["op"] == "update":
                        pol.update_params(action=o["a"], reward=num(o["r"]), context=vec(o["x"]))
                    else:
                        dst.append(ia(pol.select_action(x1)))
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    return rec
