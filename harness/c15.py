import numpy as np
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
from sklearn.naive_bayes import GaussianNB
from common import q, qa, num, guarded
import nuis
from obp.policy import IPWLearner, QLearner, NNPolicyLearner

PID, CHECKER = "C15", "CheckC15"
ASSUMPTIONS = ["temperatures are positive",
               "training logs have rounds at every position (otherwise the base model has nothing to train on)",
               "training is judged with stand-in base models that record what they are handed; sklearn models and networks are judged on the consistency of their answers",
               "sampling is judged with tests that a correct sampler fails with probability below 1e-8 per record"]


def mc(chk):
    chk.gen = chk.model("MC_Learner", out="l.ndjson", workers=4)
    if not chk.quick:
        chk.model("MC_Learner", "MC_LearnerBig.cfg", workers=6)


TAUS = [1, 1.0, 1e-4, .01, .1, .5, 2, 30.0, 1000]


def rounds(rng, log, d, clf, seen):
    out = []
    for r in log:
        while True:
            x = tuple(rng.choice([rng.randrange(-32, 33) / 16, rng.gauss(0, 1)]) for _ in range(d))
            if x not in seen:
                seen.add(x)
                break
        rew = r.get("r")
        if rew is None:
            rew = q(rng.choice([rng.randrange(2), rng.randrange(0, 16) / 4, rng.expovariate(1)]) if not clf else rng.randrange(2))
        out.append(dict(x=qa(list(x)), a=r["a"], p=r["p"], r=rew, ps=r.get("ps") or q(rng.choice([1.0, .5, .25, rng.uniform(.01, 1)])), pi=[]))
    return out


def cases(chk):
    rng = chk.rng("cases")
    out = []

    def life(kind, log, K, L):
        d = rng.choice([1, 2, 3])
        lrn = rng.choice(["ipw", "q"])
        clf = lrn == "q" and rng.random() < .4
        seen = set()
        if clf:
            log = [{k: v for k, v in r.items() if k != "r"} for r in log]
        logs = [rounds(rng, log, d, clf, seen)]
        if rng.random() < .4:                        # the same learner is fitted again, on other data
            m = L + rng.randrange(0, 4)
            logs.append(rounds(rng, [dict(a=rng.randrange(K), p=j % L) for j in range(m)], d, clf, seen))
            if rng.random() < .5:
                logs.reverse()
        new = [[rng.gauss(0, 2) for _ in range(d)] for _ in range(rng.choice([1, 2, 4]))]
        out.append(dict(kind=kind, lrn=lrn, K=K, L=L, method=rng.choice(["normal", "iw", "mrdr"]), clf=clf, nops=rng.random() < .3, logs=logs, new=new, tau=rng.choice(TAUS),
                        nopos=L == 1 and rng.random() < .5, warm=rng.random() < .5, perm=rng.random() < .5, seed=rng.randrange(10**6)))

    for g in rng.sample(chk.gen, min(len(chk.gen), 250 if chk.quick else 3000)):
        life("spec-log", [dict(a=r["a"], p=r["p"], r=r["r"], ps=r["ps"]) for r in g], 3, 2)
    for _ in range(350 if chk.quick else 5000):
        K = rng.randrange(2, 6)
        L = rng.choice([1, 1, 2, K, rng.randrange(1, K + 1)])
        n = L + rng.choice([0, 1, 2, 5, 9])
        log = [dict(a=rng.randrange(K), p=j if j < L else rng.randrange(L)) for j in range(n)]
        rng.shuffle(log)
        life("random-log", log, K, L)
    for _ in range(150 if chk.quick else 2000):
        K = rng.randrange(2, 6)
        lrn = rng.choice(["ipw", "q", "nn"])
        out.append(dict(kind="answers", lrn=lrn, K=K, L=rng.choice([1, 1, 2, K]), base=rng.randrange(3), tau=rng.choice(TAUS), n=rng.choice([1, 3, 5]), seed=rng.randrange(10**6)))
    for _ in range(16 if chk.quick else 200):
        K = rng.randrange(2, 6)
        out.append(dict(kind="sampling", lrn=rng.choice(["ipw", "q", "q", "nn"]), K=K, L=rng.choice([1, 2, K, rng.randrange(1, K + 1)]), tau=rng.choice([.1, .3, 1, 1.0, 3]), n=500 if chk.quick else 1000, seed=rng.randrange(10**6)))
    for _ in range(24 if chk.quick else 200):
        K = rng.randrange(2, 5)
        out.append(dict(kind="frequencies", lrn=rng.choice(["ipw", "q", "nn"]), K=K, L=rng.choice([1, 1, 2, K]), n=40000 if chk.quick else 200000, spread=rng.choice([1.0, 2.0, 3.0]), seed=rng.randrange(10**6)))
    return out


def queries(m, new, tau, seed, soft):
    st = dict(score=qa(m.predict_score(context=new) if hasattr(m, "predict_score") else m.predict_proba(context=new)), pred=qa(m.predict(context=new)), proba=[])
    if soft:
        st["proba"] = qa(m.predict_proba(context=new, tau=tau))
    st["slate"] = qa(m.sample_action(context=new, tau=tau, random_state=seed))
    np.random.seed(seed % 17)
    st["again"] = qa(m.sample_action(context=new, tau=tau, random_state=seed))
    return st


def run(case):
    return dict(life=life, answers=answers, sampling=sampling, frequencies=frequencies).get(case["kind"], life)(case)


def life(case):
    K, L, lrn = case["K"], case["L"], case["lrn"]
    nuis.reset(case["seed"])
    rec = dict(kind="life", lrn=lrn, K=K, L=L, emb=qa(np.eye(K)), method=case["method"], clf=case["clf"], nops=case["nops"], new=qa(case["new"]), tau=q(case["tau"]), steps=[])

    def make():
        if lrn == "ipw":
            return IPWLearner(n_actions=K, len_list=L, base_classifier=nuis.Multi(warm=case["warm"]))
        return QLearner(n_actions=K, len_list=L, base_model=(nuis.Clf if case["clf"] else nuis.Regr)(warm=case["warm"]), fitting_method=case["method"])
    m = guarded(make)
    for log in case["logs"]:
        nuis.FITS.clear()
        st = dict(fits=[], log=log, err="")

        def go():
            A = dict(context=np.array([num(r["x"]) for r in log]), action=np.array([r["a"] for r in log]), reward=np.array([num(r["r"]) for r in log]))
            if not case["nops"]:
                A["pscore"] = np.array([num(r["ps"]) for r in log])
            if not case["nopos"]:
                A["position"] = np.array([r["p"] for r in log])
            m[1].fit(**A)
            return queries(m[1], np.array(case["new"]), case["tau"], case["seed"], lrn == "q" or L == 1)
        r = m if m[0] == "err" else guarded(go)
        if r[0] == "err":
            st["err"] = "%s: %s" % r[1:]
        else:
            st.update(r[1])
            st["fits"] = nuis.fits([num(x["x"]) for x in log])
        rec["steps"].append(st)
    return rec


def learner(case, rng, n_train):
    """A fitted learner with real base models (or a network)."""
    K, L, lrn, d = case["K"], case["L"], case["lrn"], 2
    n = n_train
    ctx = rng.randn(n, d)
    pos = np.arange(n) % L
    act = rng.randint(K, size=n)
    if lrn == "ipw" and rng.rand() < .5:          # some action never appears in the log
        act = act % max(K - 1, 2)
    rew = rng.uniform(0, 2, n)
    ps = rng.uniform(.1, 1, n)
    if lrn == "nn":
        m = NNPolicyLearner(n_actions=K, len_list=L, dim_context=d, off_policy_objective="ipw", hidden_layer_size=[(), (4,), (5, 3)][case.get("base", 0)], max_iter=3, learning_rate_init=.05, random_state=int(case["seed"] % 1000))
    elif lrn == "ipw":
        m = IPWLearner(n_actions=K, len_list=L, base_classifier=[LogisticRegression(C=10.0), DecisionTreeClassifier(max_depth=3, random_state=1), GaussianNB()][case["base"]])
    else:
        base = [LogisticRegression(C=10.0), DecisionTreeRegressor(max_depth=3, random_state=1), Ridge(alpha=.1)][case["base"]]
        if case["base"] == 0:
            rew = (rng.rand(n) < .5).astype(int)
        m = QLearner(n_actions=K, len_list=L, base_model=base, fitting_method=["normal", "iw", "mrdr"][case["seed"] % 3])
    m.fit(context=ctx, action=act, reward=rew, pscore=ps, position=pos)
    return m


def answers(case):
    import torch
    torch.set_num_threads(1)
    rng = np.random.RandomState(case["seed"])
    K, L, lrn = case["K"], case["L"], case["lrn"]
    rec = dict(kind="answers", lrn=lrn, K=K, L=L, LP=1 if lrn == "nn" else L, n=case["n"], tau=q(case["tau"]), tol=q(1e-6 if lrn == "nn" else 1e-9), err="")
    new = rng.randn(case["n"], 2) * 2

    def go():
        return queries(learner(case, rng, 12 * K * L), new, case["tau"], case["seed"], lrn == "q" or (L == 1 and lrn != "nn"))
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    else:
        rec.update(r[1])
    return rec


def frequencies(case):
    import torch
    torch.set_num_threads(1)
    rng = np.random.RandomState(case["seed"])
    K, L, lrn, N = case["K"], case["L"], case["lrn"], case["n"]
    nuis.reset(case["seed"])
    rec = dict(kind="frequencies", lrn=lrn, K=K, L=L, N=N, tau="1", score=[], seen=[], err="")
    x = rng.randn(1, 2)

    def go():
        m = learner(dict(case, base=0), rng, 60) if lrn == "nn" else standin(lrn, K, L, rng)
        s = np.asarray(m.predict_proba(context=x) if lrn == "nn" else m.predict_score(context=x), float)[0]
        mean = s.mean(1)
        tau = float(max(mean.max() - mean.min(), 1e-3) / case["spread"])
        a = m.sample_action(context=np.repeat(x, N, 0), tau=tau, random_state=case["seed"])
        if a.shape != (N, K, L) or not np.isin(a, (0, 1)).all() or not (a.sum(1) == 1).all():
            raise RuntimeError("a sampled position does not hold exactly one action")
        rank, count = np.unique(a.argmax(1), axis=0, return_counts=True)
        return qa(s), q(tau), [dict(rank=[int(v) + 1 for v in r], count=int(c)) for r, c in zip(rank, count)]
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    else:
        rec["score"], rec["tau"], rec["seen"] = r[1]
    return rec


def standin(lrn, K, L, rng):
    m = IPWLearner(n_actions=K, len_list=L, base_classifier=nuis.Multi()) if lrn == "ipw" else QLearner(n_actions=K, len_list=L, base_model=nuis.Regr())
    n = 8 * K * L
    m.fit(context=rng.randn(n, 2), action=np.arange(n) % K, reward=rng.uniform(0, 1, n), pscore=rng.uniform(.1, 1, n), position=(np.arange(n) // K) % L)
    return m


def sampling(case):
    import torch
    torch.set_num_threads(1)
    rng = np.random.RandomState(case["seed"])
    K, L, lrn = case["K"], case["L"], case["lrn"]
    nuis.reset(case["seed"])
    rec = dict(kind="sampling", lrn=lrn, K=K, L=L, tau=q(case["tau"]), score=[], slate=[], err="")
    new = rng.randn(case["n"], 2)

    def go():
        if lrn == "nn":
            m = learner(dict(case, base=0), rng, 30)
            s = m.predict_proba(context=new)
        else:
            m = standin(lrn, K, L, rng)
            s = m.predict_score(context=new)
        return qa(np.round(np.asarray(s, float), 8)), qa(m.sample_action(context=new, tau=case["tau"], random_state=case["seed"]))
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    else:
        rec["score"], rec["slate"] = r[1]
    return rec
