import random
import numpy as np
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
from common import q, qa, num, guarded
import nuis
import obp.ope as O

PID, CHECKER = "C10", "CheckC10"
ASSUMPTIONS = ["base models are stand-ins that record their training data and answer with affine / logistic functions of the features",
               "logs leave training data for every position in every fold (otherwise the models refuse to train, as documented)",
               "for importance weights and propensities on several positions the held-out sets are judged per position"]


def mc(chk):
    chk.gen = chk.model("MC_Nuisance", out="n.ndjson")
    if not chk.quick:
        chk.model("MC_Nuisance", "MC_NuisanceBig.cfg", workers=6)


def trainable(log, nf, L):
    n = len(log)
    cnt = [sum(r["p"] == p for r in log) for p in range(L)]
    return min(cnt) >= 1 and (nf == 1 or (n >= nf and min(cnt) > -(-n // nf)))


def dress(rng, log, K, L, d):
    """Rounds with contexts, rewards, propensities and an evaluation distribution."""
    out, seen = [], set()
    for r in log:
        while True:
            x = tuple(rng.choice([rng.randrange(-32, 33) / 16, rng.gauss(0, 1)]) for _ in range(d))
            if x not in seen:
                seen.add(x)
                break
        cols = [[rng.randrange(0, 8) for _ in range(K)] for _ in range(L)]
        pi = []
        for c in cols:
            c[rng.randrange(K)] += 1
            pi.append([v / sum(c) for v in c])
        out.append(dict(x=qa(list(x)), a=r["a"], p=r["p"], r=q(r.get("r", rng.randrange(2))), ps=q(rng.choice([1.0, .5, .25, rng.uniform(.05, 1)])), pi=[[q(pi[l][a]) for l in range(L)] for a in range(K)]))
    return out


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def add(kind, log, nf, K, L):
        d = rng.choice([1, 2, 3])
        tgt = rng.choice(["reg", "iw", "ps"])
        emb = np.eye(K).tolist()
        method = {"reg": rng.choice(["normal", "iw", "mrdr"]), "iw": rng.choice(["sample", "raw"]), "ps": ""}[tgt]
        if tgt == "reg" or (tgt == "iw" and method == "sample"):
            if rng.random() < .5:
                e = rng.choice([1, 2, 3])
                emb = [[a + rng.randrange(0, 8) / 16 for _ in range(e)] for a in range(K)]
        clf = rng.random() < .5
        prior = None
        if rng.random() < .4:
            m = 2 * L + rng.randrange(0, 3)
            prior = dress(rng, [dict(a=rng.randrange(K), p=j % L) for j in range(m)], K, L, d)
            for r in prior:
                r["x"] = [q(num(v) + 100) for v in r["x"]]
        rounds = dress(rng, [dict(r, r=r.get("r") if clf else rng.gauss(0, 2)) if not clf else r for r in log], K, L, d)
        out.append(dict(kind=kind, tgt=tgt, method=method, clf=clf, nf=nf, K=K, L=L, emb=emb, log=rounds, prior=prior, warm=rng.random() < .5,
                        own_emb=emb != np.eye(K).tolist(), nopos=L == 1 and rng.random() < .5, posone=L == 1 and rng.random() < .3, perf=rng.random() < .5, seed=rng.randrange(10**6)))

    gen = [g for g in chk.gen if trainable(g["log"], g["nf"], 2)]
    for g in rng.sample(gen, min(len(gen), 300 if chk.quick else len(gen))):
        add("spec-log", g["log"], g["nf"], 2, 2)
    while len(out) < (700 if chk.quick else 8000):
        K, L = rng.randrange(2, 5), rng.choice([1, 1, 2, 3])
        n = rng.choice([2, 3, 4, 6, 9, 12])
        nf = rng.choice([1, 2, 2, 3, 4])
        log = [dict(a=rng.randrange(K), p=rng.randrange(L), r=rng.randrange(2)) for _ in range(n)]
        if trainable(log, nf, L):
            add("random-log", log, nf, K, L)
    for _ in range(80 if chk.quick else 1000):
        K, L = rng.choice([2, 2, 3]), 1
        out.append(dict(kind="isolated", tgt=rng.choice(["reg", "iw", "ps"]), K=K, L=L, n=rng.choice([48, 60]), nf=rng.choice([2, 3, 4]), cal=rng.choice([1, 2]), seed=rng.randrange(10**6)))
    for _ in range(40 if chk.quick else 400):
        K, L = 2, rng.choice([1, 2])
        out.append(dict(kind="calibrated", tgt=rng.choice(["iw", "ps"]), K=K, L=L, cv=rng.choice([2, 3, 4]), m=rng.choice([8, 8, 10]), method=rng.choice(["sample", "raw"]), dflt=rng.random() < .3, seed=rng.randrange(10**6)))
    return out


def calibrated(case):
    """Fits of the base model inside the cross-validated calibration, per position."""
    rng = np.random.RandomState(case["seed"])
    K, L, m, tgt = case["K"], case["L"], case["m"], case["tgt"]
    n = m * L
    nuis.reset(case["seed"])
    order = rng.permutation(n)
    act, pos = np.tile(np.arange(K), n)[:n], np.repeat(np.arange(L), m)
    act, pos = act[order], pos[order]
    ctx = np.c_[np.arange(n), rng.randn(n)]
    pi = rng.dirichlet(np.ones(K) * 3, (n, L)).transpose(0, 2, 1)
    cv = 2 if case["dflt"] else case["cv"]
    kw = {} if case["dflt"] else dict(calibration_cv=cv)
    rec = dict(kind="calibrated", tgt=tgt, L=L, cv=cv, n=n, pos=[int(p) for p in pos], fits=[], err="")

    def go():
        if tgt == "iw":
            e = O.ImportanceWeightEstimator(base_model=nuis.Clf(), n_actions=K, len_list=L, fitting_method=case["method"], **kw)
            return e.fit_predict(context=ctx, action=act, action_dist=pi, position=pos, random_state=case["seed"])
        e = O.PropensityScoreEstimator(base_model=nuis.Multi(), n_actions=K, len_list=L, **kw)
        return e.fit_predict(context=ctx, action=act, position=pos, random_state=case["seed"])
    r = guarded(go)
    if r[0] == "err":
        return dict(rec, err="%s: %s" % r[1:])
    rec["fits"] = [[dict(r=int(x[0]) + 1, y=q(y)) for x, y in zip(f["X"], f["y"])] for f in nuis.FITS]
    rec["res"] = qa(np.asarray(r[1], dtype=float))
    return rec


def run(case):
    if case["kind"] == "calibrated":
        return calibrated(case)
    if case["kind"] == "isolated":
        return isolated(case)
    K, L, log, tgt = case["K"], case["L"], case["log"], case["tgt"]
    nuis.reset(case["seed"])
    emb = np.array(case["emb"])
    ac = emb if case["own_emb"] else None
    rec = dict(kind="fit", tgt=tgt, log=log, emb=qa(emb), L=L, nf=case["nf"], clf=case["clf"], warm=case["warm"], method=case["method"], fits=[], cells=[], err="", shape="ok")

    def arr(l):
        return dict(context=np.array([num(r["x"]) for r in l]), action=np.array([r["a"] for r in l]), reward=np.array([num(r["r"]) for r in l]), pscore=np.array([num(r["ps"]) for r in l]),
                    position=np.array([r["p"] for r in l]), action_dist=np.array([num(r["pi"]) for r in l]))

    def call(m, A, nf, nopos, posone=False):
        kw = dict(context=A["context"], action=A["action"], position=None if nopos else A["position"], n_folds=nf, random_state=case["seed"])
        if posone:
            kw["position"] = np.arange(len(A["action"])) % 3      # a single-position model ignores positions
        if tgt == "reg":
            return m.fit_predict(reward=A["reward"], pscore=A["pscore"], action_dist=A["action_dist"] if case["method"] != "normal" or case["seed"] % 2 else None, **kw)
        if tgt == "iw":
            return m.fit_predict(action_dist=A["action_dist"], evaluate_model_performance=case["perf"], **kw)
        return m.fit_predict(evaluate_model_performance=case["perf"], **kw)

    def go():
        if tgt == "reg":
            m = O.RegressionModel(base_model=(nuis.Clf if case["clf"] else nuis.Regr)(warm=case["warm"]), n_actions=K, len_list=L, action_context=ac, fitting_method=case["method"])
        elif tgt == "iw":
            m = O.ImportanceWeightEstimator(base_model=nuis.Clf(warm=case["warm"]), n_actions=K, len_list=L, action_context=ac, fitting_method=case["method"], calibration_cv=1)
        else:
            m = O.PropensityScoreEstimator(base_model=nuis.Multi(warm=case["warm"]), n_actions=K, len_list=L, calibration_cv=1)
        if case["prior"]:
            call(m, arr(case["prior"]), 1, False)
        res = call(m, arr(log), case["nf"], case["nopos"], case["posone"])
        A = arr(log)
        again = None
        if case["nf"] == 1 and case["seed"] % 3 == 0:            # the fitted object keeps answering for the same rounds
            pos = {} if tgt == "reg" else dict(position=None if case["nopos"] else A["position"])
            again = m.predict(context=A["context"], **({} if tgt == "reg" else dict(action=A["action"], **pos)))
        return res, again, m.eval_result if tgt != "reg" and case["perf"] and case["nf"] > 1 else None
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        return rec
    res, again, ev = r[1]
    fits = nuis.fits([num(x["x"]) for x in log])
    n = len(log)
    want = (n, K, L) if tgt == "reg" else (n,)
    for R in (res,) + ((again,) if again is not None else ()):
        R = np.asarray(R, dtype=float)
        if R.shape != want:
            rec["shape"] = str(R.shape)
            return rec
        for i in range(n):
            x = num(log[i]["x"])
            for a in (range(K) if tgt == "reg" else [log[i]["a"]]):
                for p in (range(L) if tgt == "reg" else [log[i]["p"]]):
                    v = R[i, a, p] if tgt == "reg" else R[i]
                    hit = [k for k, f in enumerate(fits) if abs(nuis.value(f, tgt, case["clf"], x, emb, a) - v) <= 1e-11 * max(1, abs(v))]
                    best = [k for k in hit if all(row["r"] and log[row["r"] - 1]["p"] == p for row in fits[k]["rows"]) and (case["nf"] == 1 or all(row["r"] != i + 1 for row in fits[k]["rows"]))]
                    rec["cells"].append(dict(i=i + 1, a=a, p=p, v=q(v), k=(best or hit or [-1])[-1] + 1))
    rec["fits"] = fits
    if ev is not None:
        rec["diag"] = diagnostics(case, ev, fits, emb)
    return rec


def diagnostics(case, ev, fits, emb):
    """Out-of-fold labels and probabilities, each attributed to the round and the fit it comes from (0: none)."""
    log, out = case["log"], []
    if len(ev["y"]) != len(ev["proba"]):
        return [dict(i=0, k=0, b=0, y="0", v=["0"])]
    for ys, ps in zip(ev["y"], ev["proba"]):
        ys, ps = np.asarray(ys, dtype=float), np.asarray(ps, dtype=float)
        if len(ys) != len(ps):
            return [dict(i=0, k=0, b=0, y="0", v=["0"])]
        ps = ps.reshape(len(ps), -1)
        for y, v in zip(ys, ps):
            hits = []
            for k, f in enumerate(fits):
                par = f["par"]
                B, C = np.array(num(par["b"])), np.array(num(par["c"]))
                for i, rd in enumerate(log):
                    x = np.array(num(rd["x"]))
                    if case["tgt"] == "ps":
                        if rd["a"] != y or len(B) != len(v):
                            continue
                        e = np.exp(B + C @ x)
                        if np.abs(e / e.sum() - v).max() <= 1e-11:
                            hits.append((i + 1, k + 1, 0))
                        continue
                    if y == 0:
                        feats = [(0, emb[rd["a"]])]
                    elif case["method"] == "raw":
                        feats = [(0, np.array([num(c)[rd["p"]] for c in rd["pi"]]))]
                    else:
                        feats = [(b + 1, emb[b]) for b in range(len(emb)) if num(rd["pi"][b][rd["p"]]) > 0]
                    for b, ft in feats:
                        if len(x) + len(ft) == len(C) and abs(1 / (1 + np.exp(-(B + C @ np.r_[x, ft]))) - v[0]) <= 1e-11:
                            hits.append((i + 1, k + 1, b))
            good = [h for h in hits if all(row["r"] and row["r"] != h[0] and log[row["r"] - 1]["p"] == log[h[0] - 1]["p"] for row in fits[h[1] - 1]["rows"])] or hits or [(0, 0, 0)]
            out.append(dict(y=q(y), v=qa(v), good=good))
    owner = {}

    def place(j, seen):
        """Equal answers of several rounds: give every entry a round of its own where possible."""
        for h in out[j]["good"]:
            key = (h[0], out[j]["y"])
            if key in seen:
                continue
            seen.add(key)
            if key not in owner or place(owner[key], seen):
                owner[key] = j
                out[j].update(i=h[0], k=h[1], b=h[2])
                return True
        return False
    for j in range(len(out)):
        if not place(j, set()):
            h = out[j]["good"][-1]
            out[j].update(i=h[0], k=h[1], b=h[2])
    for e in out:
        e.pop("good")
    return out


def isolated(case):
    rng = np.random.RandomState(case["seed"])
    n, K, tgt, nf = case["n"], case["K"], case["tgt"], case["nf"]
    ctx = rng.randn(n, 2)
    act = np.arange(n) % K
    rng.shuffle(act)
    rew = rng.randint(0, 2, n)
    ps = rng.uniform(.1, 1, n)
    pi = rng.dirichlet(np.ones(K), n)[:, :, None]
    i = rng.randint(n)
    rec = dict(kind="isolated", tgt=tgt, a=[], b=[], err="")
    pick = rng.randint(2)

    def one(act, rew, pi):
        kw = dict(context=ctx, n_folds=nf, random_state=int(case["seed"] % 1000))
        if tgt == "reg":
            base = [LogisticRegression(C=10.0), DecisionTreeClassifier(max_depth=3, random_state=0)][pick] if case["cal"] == 1 else [Ridge(), DecisionTreeRegressor(max_depth=3, random_state=0)][pick]
            m = O.RegressionModel(base_model=base, n_actions=K, fitting_method=["normal", "iw", "mrdr"][case["seed"] % 3])
            return m.fit_predict(action=act, reward=rew, pscore=ps, action_dist=pi, **kw)[i].ravel()
        if tgt == "iw":
            m = O.ImportanceWeightEstimator(base_model=LogisticRegression(C=10.0), n_actions=K, fitting_method=["sample", "raw"][case["seed"] % 2], calibration_cv=case["cal"])
            return np.array([m.fit_predict(action=act, action_dist=pi, **kw)[i]])
        m = O.PropensityScoreEstimator(base_model=LogisticRegression(C=10.0), n_actions=K, calibration_cv=case["cal"])
        return np.array([m.fit_predict(action=act, **kw)[i]])

    def go():
        a = one(act, rew, pi)
        act2, rew2, pi2 = act.copy(), rew.copy(), pi.copy()
        if tgt == "reg":
            rew2[i] = 1 - rew2[i]
            act2[i] = (act2[i] + 1) % K
            return a, one(act2, rew2, pi2)
        if tgt == "iw":
            pi2[i] = pi2[i][::-1]
            return a, one(act2, rew2, pi2)
        # the probabilities a round gets for all actions sum to one only if they come from the same model
        tot = a.copy()
        for s in range(1, K):
            act2[i] = (act[i] + s) % K
            tot = tot + one(act2, rew2, pi2)
        return np.array([1.0]), tot
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    else:
        rec["a"], rec["b"] = qa(r[1][0]), qa(r[1][1])
    return rec
