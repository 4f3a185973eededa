import numpy as np
from common import q, qa, guarded
import torch
from obp.policy import NNPolicyLearner, ContinuousNNPolicyLearner

PID, CHECKER = "C16", "CheckC16"
ASSUMPTIONS = ["initial and final parameters are read from the learners' public networks (nn_model, q_func_estimator.nn_model)",
               "single precision: trained parameters are compared to 2e-5; runs in which an activation kink, the output range or the stopping threshold is closer than single precision can tell are accepted",
               "epsilon of Adam and Adagrad is at least 1e-2, so that rounding of tiny gradients is not amplified",
               "policies put positive probability on every action (learning rates at which the softmax underflows are excluded)"]


def mc(chk):
    chk.model("MC_Grad", workers=6)
    chk.gen = chk.model("MC_Train", out="t.ndjson")
    if not chk.quick:
        chk.model("MC_Train", "MC_TrainBig.cfg", workers=6)
        chk.model("MC_Grad", "MC_GradBig.cfg", workers=8)


DISC = ["dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"]
CONT = ["ipw", "dr", "dpg"]
ACTS = ["identity", "logistic", "tanh", "relu", "elu"]


def hyper(rng, n, size, iters, patience, val, shuffle):
    kind = rng.choice(["sgd", "sgd", "adagrad", "adam"])
    lr = rng.choice([.01, .05, .25] if kind == "sgd" else [.01, .05])
    return dict(hidden_layer_size=rng.choice([[], [], [2], [3], [2, 2]]), activation=rng.choice(ACTS), solver=kind, alpha=rng.choice([0.0, 1e-4, .01, .25]), batch_size=rng.choice(["auto", n, n + 3]) if size >= n else size,
                learning_rate_init=lr, max_iter=iters, shuffle=shuffle, random_state=rng.randrange(1000), tol=rng.choice([1e-4, 1e-4, .005, .05]), momentum=rng.choice([0.0, .5, .9]),
                nesterovs_momentum=rng.random() < .5, early_stopping=val > 0, validation_fraction=rng.choice([.1, .3, .5]), beta_1=rng.choice([.9, .5, 0.0]), beta_2=rng.choice([.999, .9, .5]),
                epsilon=rng.choice([.01, .1]), n_iter_no_change=patience)


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def add(kind, n, size, iters, patience, val, shuffle):
        cont = rng.random() < .4
        obj = rng.choice(CONT if cont else DISC)
        h = hyper(rng, n, size, iters, patience, val, shuffle)
        qsize = n if n > 20 or rng.random() < .5 else rng.randrange(1, n + 1)
        qh = hyper(rng, n, qsize, rng.choice([1, 2, 4]) if qsize == n or n > 3 else rng.choice([1, 2]), rng.choice([1, 3, 10]), 0, rng.random() < .5 if qsize == n or n <= 3 else False)
        if qsize < n:              # many steps at a large rate amplify rounding
            qh.update(learning_rate_init=rng.choice([.01, .05]), momentum=rng.choice([0.0, .5]))
        vs = max(int(n * h["validation_fraction"]), 1) if h["early_stopping"] else 0
        if h["early_stopping"] and n <= vs:
            return
        if vs > 0 and n - vs > 3 and isinstance(h["batch_size"], int) and h["batch_size"] < n - vs and n > 4:
            return
        if rng.random() < .4 and 2 <= n <= 8:
            f = rng.choice([.3, .3, .5])
            if qsize == n or (n < 5 and qsize < n and qh["max_iter"] <= 2):
                qh.update(early_stopping=True, validation_fraction=f)
        lam = {"snipw": rng.choice([0.0, .5, 2.0]), "ipw-os": rng.choice([.5, 3.0, 1000.0]), "ipw-subgauss": rng.choice([0.0, .001, .3, 1.0])}.get(obj) if not cont else None
        if lam is not None and rng.random() < .15:
            lam = None
        out.append(dict(kind=kind, cont=cont, obj=obj, h=h, q=qh, K=rng.randrange(2, 5), L=1 if rng.random() < .8 else 2, d=rng.choice([1, 2]), n=n, lam=lam, preg=rng.choice([0.0, 0.0, .1, 1.0]), vreg=rng.choice([0.0, 0.0, .1, .5]),
                        bw=rng.choice([.25, .5, 1.0]), space=rng.choice([None, [-.5, .5], [-4.0, 4.0], [0.0, .25]]), nops=rng.random() < .15, seed=rng.randrange(10**6)))

    for g in chk.gen:
        for _ in range(5 if chk.quick else 40):
            add("spec-schedule", g["n"], g["size"], g["maxIter"], rng.choice([g["patience"], 10]), g["val"], rng.random() < .5 if g["n"] <= 4 else False)
    for _ in range(400 if chk.quick else 6000):
        n = rng.randrange(1, 9)
        val = int(n > 1 and n <= 5 and rng.random() < .3)
        size = n if val else rng.choice([n, n, rng.randrange(1, n + 1)])
        add("random-schedule", n, size, rng.choice([1, 1, 2, 3, 6]), rng.choice([1, 2, 10]), val, size >= n and rng.random() < .5)
    for i in range(90 if chk.quick else 1200):       # runs that stop before their last epoch
        k = len(out)
        n = rng.randrange(2, 5)
        add("stopping", n, n, rng.choice([5, 6, 8]), rng.choice([1, 2, 2, 3]), int(rng.random() < .6), rng.random() < .5)
        for c in out[k:]:
            for h in (c["h"], c["q"]):
                h.update(tol=rng.choice([1e-4, .005, .05, .2]), hidden_layer_size=rng.choice([[], [], [2]]), max_iter=rng.choice([5, 6, 8]) if h["batch_size"] in ("auto", n, n + 3) else h["max_iter"], n_iter_no_change=rng.choice([1, 2, 2, 3]))
            if c["q"]["batch_size"] in ("auto", n, n + 3) and rng.random() < .6:
                c["q"].update(early_stopping=True, validation_fraction=rng.choice([.3, .5]))
            for h in (c["h"], c["q"]):         # losses that go up and down
                if rng.random() < .5:
                    h.update(solver="sgd", learning_rate_init=rng.choice([.05, .15, .25]), momentum=.9, nesterovs_momentum=False, n_iter_no_change=2, max_iter=8 if h["batch_size"] in ("auto", n, n + 3) else h["max_iter"], tol=1e-4, activation=rng.choice(["tanh", "identity"]))
            if i % 2:
                c.update(cont=i % 4 == 1, obj="dr", lam=None)
    for i in range(10 if chk.quick else 60):         # shuffled anew in every epoch
        add("shuffled", 3, 1, 3, 10, 0, True)
        c = out[-1]
        c.update(d=1, L=1, nops=False, sub=i % 2, runs=6)
        if i % 2:
            c["obj"] = ["dm", "dr", "dpg", "dr"][i // 2 % 4]
            c["cont"] = i // 2 % 4 > 1
            c["lam"] = None
        for h in (c["h"], c["q"]):
            h.update(hidden_layer_size=[], batch_size=1, shuffle=True, early_stopping=False, max_iter=3, solver="sgd", learning_rate_init=.25, tol=1e-9, n_iter_no_change=100, activation="identity")
    for _ in range(8 if chk.quick else 60):         # the default batch size cuts larger logs
        add("large", rng.choice([199, 200, 201, 230, 399, 401]), 10**6, rng.choice([1, 2]), 10, 0, False)
        c = out[-1]
        c.update(K=2, d=1)
        for h in (c["h"], c["q"]):
            h.update(hidden_layer_size=[], batch_size="auto", shuffle=False, early_stopping=False, max_iter=1)
    return out


def flat(net):
    return [float(v) for p in net.parameters() for v in p.detach().numpy().ravel()]


def opt(h):
    return dict(kind=h["solver"], lr=q(h["learning_rate_init"]), decay=q(h["alpha"]), momentum=q(h["momentum"]), nesterov=h["nesterovs_momentum"] and h["momentum"] > 0, b1=q(h["beta_1"]), b2=q(h["beta_2"]), eps=q(h["epsilon"]),
                tol=q(h["tol"]), patience=h["n_iter_no_change"])


def kw(h):
    return dict(h, hidden_layer_size=tuple(h["hidden_layer_size"]))


def run(case):
    if case["kind"] == "shuffled":
        recs = []
        for k in range(case["runs"]):
            c = dict(case, kind="", seed=case["seed"] + k, h=dict(case["h"], random_state=case["h"]["random_state"] + k), q=dict(case["q"], random_state=case["q"]["random_state"] + k))
            recs.append(run(c))
            if recs[-1]["err"]:
                return recs[-1]
        return dict(name=recs[0]["name"], err="", runs=[r["runs"][0 if case["sub"] else -1] for r in recs], preds=[], shuffled=True)
    torch.set_num_threads(1)
    rng = np.random.RandomState(case["seed"])
    n, d, K, cont, obj, h, qh = case["n"], case["d"], case["K"], case["cont"], case["obj"], case["h"], case["q"]
    name = ("continuous " if cont else "") + obj
    grid = lambda lo, hi, *s: rng.randint(lo * 16, hi * 16 + 1, size=s) / 16.0
    ctx = grid(-2, 2, n, d)
    act = grid(-1, 1, n) if cont else rng.randint(K, size=n)
    rew = grid(-1, 3, n)
    ps = rng.randint(2, 17, size=n) / 16.0
    ctx1 = ctx + 0.0
    has_q = obj in ("dm", "dr", "dpg")
    rec = dict(name=name, runs=[], preds=[], err="")

    def make():
        kwargs = kw(h)
        if has_q:
            kwargs["q_func_estimator_hyperparams"] = kw(qh)
            if not cont:
                kwargs["q_func_estimator_hyperparams"]["n_actions"] = K
        if cont:
            return ContinuousNNPolicyLearner(dim_context=d, pg_method=obj, bandwidth=None if obj == "dpg" else case["bw"], output_space=None if case["space"] is None else tuple(case["space"]), **kwargs)
        return NNPolicyLearner(n_actions=K, len_list=min(case["L"], K), dim_context=d, off_policy_objective=obj, lambda_=case["lam"], policy_reg_param=case["preg"], var_reg_param=case["vreg"], **kwargs)

    def go():
        m = make()
        t0 = flat(m.nn_model)
        q0 = flat(m.q_func_estimator.nn_model) if has_q else []
        A = dict(context=ctx, action=act, reward=rew)
        if not case["nops"]:
            A["pscore"] = ps
        if not cont and case["L"] > 1:
            A["position"] = rng.randint(min(case["L"], K), size=n)
        m.fit(**A)
        new = np.concatenate([ctx1[:1], grid(-3, 3, 2, d)])
        p = m.predict(context=new)[:, None] if cont else m.predict_proba(context=new)[:, :, 0]
        return t0, q0, flat(m.nn_model), flat(m.q_func_estimator.nn_model) if has_q else [], new, p
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        return rec
    t0, q0, t1, q1, new, p = r[1]
    pu = np.full(n, 1.0 if cont else 1.0 / K) if case["nops"] else ps
    rounds = [dict(x=qa(ctx1[i]), a=q(act[i]) if cont else int(act[i]), r=q(rew[i]), ps=q(pu[i])) for i in range(n)]
    dflt = {"snipw": 0.0, "ipw-os": 10000, "ipw-subgauss": .001}
    lam = case["lam"] if case["lam"] is not None else dflt.get(obj, 0.0)
    qd = [d + (1 if cont else 0)] + qh["hidden_layer_size"] + [1 if cont else K]
    if has_q:
        c = dict(obj="c-mse" if cont else "mse", f=qh["activation"], dims=qd)
        rec["runs"].append(one(c, qh, rounds, q0, q1, name + " reward network", n))
    c = dict(obj="c-" + obj if cont else obj, f=h["activation"], dims=[d] + h["hidden_layer_size"] + [1 if cont else K], qtheta=qa(q1), qdims=qd, qf=qh["activation"], preg=q(case["preg"]), vreg=q(case["vreg"]), bw=q(case["bw"]),
             lo="none" if not cont or case["space"] is None else q(case["space"][0]), hi="none" if not cont or case["space"] is None else q(case["space"][1]), **{"lambda": q(lam)})
    rec["runs"].append(one(c, h, rounds, t0, t1, name, n))
    rec["preds"] = [dict(x=qa(new[i]), out=qa(p[i])) for i in range(len(new))]
    return rec


def one(c, h, rounds, t0, t1, name, n):
    b = min(200, n) if h["batch_size"] == "auto" else h["batch_size"]
    return dict(c=c, o=opt(h), rounds=rounds, size=b, iters=h["max_iter"], shuffle=h["shuffle"], val=max(int(n * h["validation_fraction"]), 1) if h["early_stopping"] else 0, theta0=qa(t0), theta1=qa(t1), name=name)
