import numpy as np
from scipy.optimize import nnls
from common import q, qa, ia, num, guarded
from obp.dataset import (SyntheticBanditDataset, SyntheticMultiLoggersBanditDataset, SyntheticBanditDatasetWithActionEmbeds, SyntheticContinuousBanditDataset,
                         logistic_reward_function, logistic_polynomial_reward_function, logistic_sparse_reward_function, linear_reward_function, polynomial_reward_function,
                         sparse_reward_function, linear_behavior_policy, polynomial_behavior_policy, linear_reward_funcion_continuous, quadratic_reward_funcion_continuous,
                         linear_behavior_policy_continuous)
from obp.dataset.synthetic import sample_random_uniform_coefficients

PID, CHECKER = "C20", "CheckC20"
ASSUMPTIONS = ["noise scales of truncated distributions are positive; unbounded continuous actions come with a behaviour policy",
               "independence of the draws is tested by martingale sums at Freedman's bound (false alarm probability below 1e-8 per sum, fixed seeds)",
               "user-supplied reward and behaviour functions are deterministic functions of context and action context"]
STAT_N = 4000


def mc(chk):
    chk.gen = chk.model("MC_SynthLog", out="synth.ndjson", workers=6)
    if not chk.quick:
        chk.model("MC_SynthLog", "MC_SynthLogBig.cfg", workers=6)


def conf(rng, stat=False):
    K = rng.randrange(2, 4) if stat else rng.randrange(2, 8)
    return dict(K=K, dim=rng.randrange(1, 4), binary=rng.random() < .5, sd=rng.choice([1.0, 0.5, 2.5]) if not stat else 1.0, rf=rng.choice(["none", "table", "builtin"]), bf=rng.choice(["own", "own", "table", "builtin"]),
                beta=rng.choice([0.0, 1.0, -1.0, 0.5]) if stat else rng.choice([0.0, 1.0, -2.0, 3.0, 10.0, rng.uniform(-5, 5)]), nd=rng.choice([0, 0, 1, rng.randrange(K)]), seed=rng.randrange(2 ** 31), ac=rng.random() < .4,
                batches=2 if stat else rng.choice([1, 1, 2, 3]), n=STAT_N if stat else rng.choice([1, 2, 3, rng.randrange(1, 30)]), stat=stat)


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(len(chk.gen), 260))
    for g in gen[:4000]:
        multi = len(g["betas"]) > 1
        out.append(dict(kind="spec-batch", cls="multi" if multi else "plain", K=len(g["lg"]), dim=1, binary=rng.random() < .5, sd=1.0, rf="const", lgc=g["lg"], bf="own" if multi else "const", betas=g["betas"], rhos=g["rhos"], beta=num(g["betas"][0]),
                        nd=g["nd"], seed=rng.randrange(10 ** 6), ac=False, batches=1, n=g["n"], stat=False))
    for i in range(160 if chk.quick else 2500):
        c = conf(rng)
        c.update(kind="batch", cls="plain")
        out.append(c)
    for i in range(9 if chk.quick else 60):
        c = conf(rng, True)
        c.update(kind="batch-sampling", cls="plain", binary=i % 2 == 0, rf=["none", "table", "builtin"][i % 3])
        out.append(c)
    for i in range(100 if chk.quick else 2000):
        c = conf(rng)
        L = rng.randrange(1, 7)
        c.update(kind="multi", cls="multi", betas=[q(rng.choice([0.0, 1.0, -2.0, 3.0, rng.uniform(-5, 5)])) for _ in range(L)], bf="own",
                 rhos=rng.choice([["1"] * L, [q(rng.choice([0, 1, 2, 0.3])) for _ in range(L)], [q(rng.random()) for _ in range(L)]]))
        if sum(num(r) for r in c["rhos"]) == 0:
            c["rhos"][0] = "1"
        out.append(c)
    for i in range(6 if chk.quick else 30):
        c = conf(rng, True)
        c.update(kind="multi-sampling", cls="multi", bf="own", betas=["2", "-2"], rhos=["1", q(rng.choice([1, 2, 0.4]))], binary=i % 2 == 0, nd=min(c["nd"], 1))
        out.append(c)
    for i in range(90 if chk.quick else 1500):
        c = conf(rng)
        D = rng.randrange(1, 4)
        c.update(kind="embed", cls="embed", D=D, C=rng.randrange(1, 5), unobs=rng.randrange(0, D + 1) if rng.random() < .4 else 0, irr=rng.choice([0, 0, 1, rng.randrange(D + 1)]), pstd=rng.choice([0.0, 1.0, 3.0]), n=max(c["n"], 2))
        c["irr"] = min(c["irr"], D)
        out.append(c)
    for i in range(12 if chk.quick else 60):
        c = conf(rng, True)
        c.update(kind="embed-sampling", cls="embed", D=2, C=2, unobs=0, irr=i % 2, pstd=1.0, binary=i % 2 == 0, n=STAT_N // 2)
        if i >= 6:             # dimensions that matter and are not observed
            c.update(D=rng.choice([2, 3]), unobs=1 + i % 2 * rng.randrange(2), irr=0, binary=True, C=rng.choice([2, 3]))
            c["unobs"] = min(c["unobs"], c["D"] - 1)
        if i < 3:
            c["seed"] = i          # small seeds: also the indices of the embedding dimensions
        out.append(c)
    for i in range(90 if chk.quick else 1500):
        out.append(dict(kind="reward-function", fn=rng.choice(["logistic", "logistic_poly", "logistic_sparse", "linear", "poly", "sparse"]), z=rng.random() < .6, per=rng.random() < .35, n=rng.choice([1, 2, 3, 4, rng.randrange(1, 8)]),
                        dim=rng.randrange(1, 3), K=rng.randrange(2, 4), eye=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    for i in range(24 if chk.quick else 200):        # which features a sparse function keeps is its choice
        only = ["ctx", "act", "inter"][i % 3]
        out.append(dict(kind="reward-function", fn=rng.choice(["sparse", "logistic_sparse"]), z=False, per=False, only=only, n=rng.randrange(1, 5), dim=1 if only == "inter" else rng.randrange(1, 3), K=2, eye=only != "act", seed=rng.randrange(10 ** 6)))
    for i in range(20 if chk.quick else 300):
        out.append(dict(kind="behaviour-function", deg=rng.choice([1, 3]), n=rng.randrange(3, 9), dim=rng.randrange(1, 4), K=rng.randrange(2, 6), eye=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    for i in range(40 if chk.quick else 500):
        out.append(dict(kind="value", cls=rng.choice(["plain", "multi", "embed"]), n=rng.randrange(1, 8), K=rng.randrange(2, 6), det=rng.random() < .3, seed=rng.randrange(10 ** 6)))
    for i in range(4 if chk.quick else 20):
        out.append(dict(kind="sample-reward", n=STAT_N // 2, K=3, dim=2, binary=i % 2 == 0, sd=1.0, rf="table", seed=rng.randrange(10 ** 6)))
    for i in range(70 if chk.quick else 1200):
        lo, hi = rng.choice([(-1.0, 1.0), (0.0, 5.0), (-10, 10), (-np.inf, np.inf), (-2.0, np.inf), (-np.inf, 1.0)])
        unif = np.isfinite(lo) and np.isfinite(hi) and rng.random() < .4
        out.append(dict(kind="continuous", lo=q(lo), hi=q(hi), unif=bool(unif), dim=rng.randrange(1, 4), sd=rng.choice([1.0, 0.5, 3.0]), noise=rng.choice([1.0, 0.0, 0.3, 2.0]), bfn=rng.choice(["table", "builtin"]), rfn=rng.choice(["none", "table", "linear", "quad"]),
                        n=rng.choice([1, 2, rng.randrange(1, 20)]), batches=rng.choice([1, 2]), stat=False, seed=rng.randrange(10 ** 6)))
    for i in range(6 if chk.quick else 40):
        lo, hi, unif = [(-1.0, 1.0, True), (-1.0, 2.0, False), (-np.inf, np.inf, False)][i % 3]
        out.append(dict(kind="continuous-sampling", lo=q(lo), hi=q(hi), unif=unif, dim=2, sd=1.0, noise=1.0, bfn="table", rfn=rng.choice(["none", "table"]), n=STAT_N // 2, batches=2, stat=True, seed=rng.randrange(10 ** 6)))
    return out


def table(case, salt, prob):
    """A user-supplied function of context and action context."""
    def f(context, action_context, random_state=None):
        r = np.random.RandomState(case["seed"] % 1000 + salt)
        A, B = r.normal(size=(context.shape[1], action_context.shape[1])), r.normal(size=action_context.shape[1])
        x = (context @ A + B) @ action_context.T / (1.0 if action_context.shape[1] < 3 else 1.5)
        return 1 / (1 + np.exp(-x)) if prob else 3 * np.tanh(x / 3) + 0.5
    return f


def const(case, prob):
    def f(context, action_context, random_state=None):
        v = np.array([num(v) for v in case["lgc"]])
        v = 1 / (1 + np.exp(-v)) if prob else v
        return np.tile(v, (context.shape[0], 1))
    return f


def functions(case):
    prob = case["binary"]
    rf = {"none": None, "table": table(case, 0, prob), "builtin": logistic_reward_function if prob else linear_reward_function, "const": const(case, prob) if case["rf"] == "const" else None}[case["rf"]]
    bf = {"own": None, "table": table(case, 7, False), "builtin": linear_behavior_policy, "const": const(case, False) if case.get("bf") == "const" else None}[case.get("bf", "own")]
    return rf, bf


def run(case):
    return dict(plain=run_batch, multi=run_batch, embed=run_batch).get(case.get("cls"), lambda c: None)(case) if case["kind"] in ("spec-batch", "batch", "batch-sampling", "multi", "multi-sampling", "embed", "embed-sampling") else globals()["run_" + case["kind"].replace("-", "_")](case)


def make(case, rf, bf):
    r = np.random.RandomState(case["seed"] % 10 ** 6)
    ac = r.normal(size=(case["K"], 2)) if case["ac"] else None
    kw = dict(n_actions=case["K"], dim_context=case["dim"], reward_type="binary" if case["binary"] else "continuous", reward_function=rf, reward_std=case["sd"], n_deficient_actions=case["nd"], random_state=case["seed"])
    if case["cls"] == "multi":
        return SyntheticMultiLoggersBanditDataset(action_context=ac, betas=[num(b) for b in case["betas"]], rhos=[num(r) for r in case["rhos"]], **kw), ac
    kw.update(beta=case["beta"], behavior_policy_function=bf)
    if case["cls"] == "embed":
        return SyntheticBanditDatasetWithActionEmbeds(n_cat_per_dim=case["C"], n_cat_dim=case["D"], n_unobserved_cat_dim=case["unobs"], n_irrelevant_cat_dim=case["irr"], p_e_a_param_std=case["pstd"], latent_param_mat_dim=2, **kw), None
    return SyntheticBanditDataset(action_context=ac, **kw), ac


def run_batch(case):
    rf, bf = functions(case)
    multi, embed = case["cls"] == "multi", case["cls"] == "embed"
    K, n = case["K"], case["n"]
    rec = dict(k="embed" if embed else "batch", err="", K=K, n=n, nd=case["nd"], law="embedded" if embed else ("binary" if case["binary"] else "truncated"), sd=q(case["sd"]), multi=multi, own=bf is None, stat=case["stat"],
               betas=case["betas"] if multi else [q(case["beta"])], rhos=case["rhos"] if multi else ["1"])
    if case["kind"] == "spec-batch" and not multi:
        rec["betas"] = case["betas"]
    got = guarded(make, case, rf, bf)
    if got[0] == "err":
        return dict(rec, err="%s: %s" % got[1:])
    d, ac = got[1]
    ac = np.eye(K, dtype=int) if ac is None else ac
    prev, pres, first = [], [], None
    for b in range(case["batches"]):
        got = guarded(d.obtain_batch_bandit_feedback, n_rounds=n)
        if got[0] == "err":
            return dict(rec, err="%s: %s" % got[1:])
        f = got[1]
        if b < case["batches"] - 1:
            prev = ia(f["action"])
            res = f["reward"] - f["expected_reward"][np.arange(n), f["action"]]
            pres = [1 if v > 0 else -1 for v in res]
    x = f["context"]
    if x.shape != (n, case["dim"]):
        return dict(rec, err="contexts have the wrong shape")
    if embed:
        loc = np.zeros((n, K))
    elif rf is None:
        loc = np.tile(d.expected_reward, (n, 1))
    else:
        loc = rf(context=x, action_context=ac, random_state=case["seed"])
    lg = bf(context=x, action_context=ac, random_state=case["seed"]) if bf else np.zeros((0, K))
    rec.update(nact=int(f["n_actions"]), nround=int(f["n_rounds"]), loc=qa(loc), lg=qa(lg), er=qa(f["expected_reward"]), pib=qa(f["pi_b"][:, :, 0]), ps=qa(f["pscore"]), act=ia(f["action"]), rew=qa(f["reward"]),
               strat=[int(s) + 1 for s in f["stratum_idx"]] if multi else [1] * n, pav=qa(f["pi_b_avg"][:, :, 0]) if multi else [], psav=qa(f["pscore_avg"]) if multi else [],
               acx=qa(f["action_context"]) if not embed else [], acg=qa(ac) if not embed else [], nopos=f["position"] is None, prev=prev, pres=pres, sgn=[1 if v > 0 else -1 for v in x[:, 0]])
    if embed:
        qxe, pea, emb = f["q_x_e"], f["p_e_a"], f["action_embed"]
        D = case["D"] - case["unobs"]
        if qxe.shape != (n, case["C"], D) or pea.shape != (K, case["C"], D) or emb.shape != (n, D) or f["action_context"].shape != (K, D):
            return dict(rec, err="embedding arrays have the wrong shape")
        full = case["unobs"] <= case["irr"] and D > 0
        w = []
        if full:
            parts = np.stack([(qxe[:, :, k] @ pea[:, :, k].T).ravel() for k in range(D)], axis=1)
            free = [k for k in range(D) if k >= case["irr"] - case["unobs"]]
            w = np.zeros(D)
            if free:
                big = 1e3 * max(1.0, np.abs(parts).max())
                w[free] = nnls(np.vstack([parts[:, free], np.full((1, len(free)), big)]), np.append(f["expected_reward"].ravel(), big), maxiter=10000)[0]
            w = qa(w)
        rec.update(C=case["C"], D=D, qxe=qa(qxe), pea=qa(pea), emb=ia(emb), w=w, full=bool(full), nirr=max(0, case["irr"] - case["unobs"]), none=case["irr"] == case["D"], bin=case["binary"])
        if not (0 <= f["action_context"]).all() or not (f["action_context"] < case["C"]).all():
            rec["err"] = "action context is not a category"
    return rec


FN = dict(logistic=(logistic_reward_function, 1, True, False), logistic_poly=(logistic_polynomial_reward_function, 3, True, False), logistic_sparse=(logistic_sparse_reward_function, 4, True, True),
          linear=(linear_reward_function, 1, False, False), poly=(polynomial_reward_function, 3, False, False), sparse=(sparse_reward_function, 4, False, True))


def run_reward_function(case):
    fn, deg, link, sparse = FN[case["fn"]]
    r = np.random.RandomState(case["seed"])
    x = r.normal(size=(case["n"], case["dim"])) * 0.7
    g = np.eye(case["K"]) if case["eye"] else r.normal(size=(case["K"], 2)) * 0.7
    got = {}

    def coef(n_rounds, effective_dim_action_context, effective_dim_context, random_, **kw):
        if case["per"]:
            c = (r.uniform(-1, 1, size=(n_rounds, effective_dim_context)), r.uniform(-1, 1, size=(n_rounds, effective_dim_action_context)), r.uniform(-1, 1, size=(n_rounds, effective_dim_context, effective_dim_action_context)))
        else:
            c = sample_random_uniform_coefficients(effective_dim_action_context, effective_dim_context, random_)
        if case.get("only"):
            c = tuple((np.ones_like(v) if m == case["only"] else np.zeros_like(v)) for v, m in zip(c, ("ctx", "act", "inter")))
        c = tuple(v * (0.2 if link and not case["z"] else 1.0) for v in c)
        got["c"] = [v.copy() for v in c]
        return c
    rec = dict(k="fn", err="", deg=deg, z=case["z"], sparse=sparse, only=case.get("only") or "", link=link, x=qa(x), g=qa(g), per=case["per"])
    kw = {} if case["z"] and case["seed"] % 2 else dict(z_score=case["z"])          # standardised by default
    o = guarded(fn, context=x, action_context=g, coef_function=coef, random_state=case["seed"], **kw)
    if o[0] == "err":
        return dict(rec, err="%s: %s" % o[1:])
    if sparse and case["z"] and not np.isfinite(o[1]).all():
        return None               # a sparse selection without any varying feature has no standard deviation
    rec.update(out=qa(o[1]), cc=qa(got["c"][0]), ac=qa(got["c"][1]), ca=qa(got["c"][2]))
    return rec


def run_behaviour_function(case):
    r = np.random.RandomState(case["seed"])
    x = r.normal(size=(case["n"], case["dim"]))
    x[-1] = (x[0] + x[1]) / 2
    g = np.eye(case["K"]) if case["eye"] else r.normal(size=(case["K"], 2))
    o = guarded({1: linear_behavior_policy, 3: polynomial_behavior_policy}[case["deg"]], context=x, action_context=g, random_state=case["seed"])
    return dict(k="bpol", err="" if o[0] == "ok" else "%s: %s" % o[1:], deg=case["deg"], out=qa(o[1]) if o[0] == "ok" else [])


def run_value(case):
    r = np.random.RandomState(case["seed"])
    n, K = case["n"], case["K"]
    cls = dict(plain=SyntheticBanditDataset, multi=SyntheticMultiLoggersBanditDataset, embed=SyntheticBanditDatasetWithActionEmbeds)[case["cls"]]
    d = cls(n_actions=K, **(dict(betas=[1.0], rhos=[1.0]) if case["cls"] == "multi" else {}))
    er = r.normal(size=(n, K))
    pi = np.eye(K)[r.randint(K, size=n)] if case["det"] else r.dirichlet(np.ones(K) * .5, size=n)
    o = guarded(d.calc_ground_truth_policy_value, expected_reward=er, action_dist=pi[:, :, None])
    return dict(k="value", err="" if o[0] == "ok" else "%s: %s" % o[1:], q=qa(er), pi=qa(pi), value=q(o[1]) if o[0] == "ok" else "nan")


def run_sample_reward(case):
    rf, _ = functions(case)
    r = np.random.RandomState(case["seed"])
    n, K = case["n"], case["K"]
    d = SyntheticBanditDataset(n_actions=K, dim_context=case["dim"], reward_type="binary" if case["binary"] else "continuous", reward_function=rf, reward_std=case["sd"], random_state=case["seed"])
    x, a = r.normal(size=(n, case["dim"])), r.randint(K, size=n)
    loc = rf(context=x, action_context=np.eye(K))
    o = guarded(lambda: (d.sample_reward(context=x, action=a), d.sample_reward(context=x, action=a)))
    rec = dict(k="sample", err="" if o[0] == "ok" else "%s: %s" % o[1:], law="binary" if case["binary"] else "truncated", n=n, K=K, sd=q(case["sd"]), loc=qa(loc), act=ia(a), multi=False, prev=[], pres=[], sgn=[1 if v > 0 else -1 for v in x[:, 0]])
    if o[0] == "ok":
        m = loc[np.arange(n), a]
        rec.update(rew=qa(o[1][1]), prev=ia(a), pres=[1 if v else -1 for v in o[1][0] > m])
    return rec


def run_continuous(case):
    r = np.random.RandomState(case["seed"] % 1000)
    n, lo, hi = case["n"], num(case["lo"]), num(case["hi"])
    c = r.normal(size=case["dim"]) * .5
    bfn = None if case["unif"] else dict(table=lambda context, random_state=None: np.clip(context @ c, lo - 1, hi + 1), builtin=linear_behavior_policy_continuous)[case["bfn"]]
    rfn = dict(none=None, table=lambda context, action, random_state=None: np.sin(action) + context @ c, linear=linear_reward_funcion_continuous, quad=quadratic_reward_funcion_continuous)[case["rfn"]]
    rec = dict(k="cont", err="", n=n, unif=case["unif"], lo=case["lo"], hi=case["hi"], sd=q(case["sd"]), noise=q(case["noise"]), free=rfn is None, stat=case["stat"], prev=[], pres=[], nround=0)

    def go():
        d = SyntheticContinuousBanditDataset(dim_context=case["dim"], action_noise=case["sd"], reward_noise=case["noise"], min_action_value=lo, max_action_value=hi, reward_function=rfn, behavior_policy_function=bfn, random_state=case["seed"])
        return d, [d.obtain_batch_bandit_feedback(n_rounds=n) for _ in range(case["batches"])]
    got = guarded(go)
    if got[0] == "err":
        return dict(rec, err="%s: %s" % got[1:])
    d, fs = got[1]
    f = fs[-1]
    x = f["context"]
    center = lambda y: (lo + hi) / 2 if case["unif"] else bfn(context=y, random_state=case["seed"])
    loc = center(x) if bfn else np.zeros(n)
    if np.shape(loc) != (n,):
        return dict(rec, err="behaviour function has the wrong shape")
    va = r.uniform(-1, 1, size=n)
    o = guarded(d.calc_ground_truth_policy_value, context=x, action=va)
    if o[0] == "err":
        return dict(rec, err="%s: %s" % o[1:])
    rec.update(nround=int(f["n_rounds"]), loc=qa(loc), act=qa(f["action"]), ps=qa(f["pscore"]), rew=qa(f["reward"]), er=qa(f["expected_reward"]), want=qa(rfn(context=x, action=f["action"], random_state=case["seed"])) if rfn else [],
               value=q(o[1]), vact=qa(va), vals=qa(rfn(context=x, action=va, random_state=case["seed"]) if rfn else va), sgn=[1 if v > 0 else -1 for v in x[:, 0]], cur=[1 if v else -1 for v in f["action"] > center(x)])
    if len(fs) > 1:
        p = fs[-2]
        rec.update(prev=[1 if v else -1 for v in p["action"] > center(p["context"])], pres=[1 if v else -1 for v in p["reward"] > p["expected_reward"]])
    return rec


run_continuous_sampling = run_continuous
