import math
import numpy as np
from common import q, qa, ia, num, guarded
from obp.dataset import SyntheticSlateBanditDataset, logistic_reward_function, linear_reward_function
from obp.dataset import linear_behavior_policy_logit

PID, CHECKER = "C21", "CheckC21"
ASSUMPTIONS = ["frequencies and sample means are compared at six standard deviations",
               "base expected rewards of different actions are distinct where a ranking is specified"]
STRUCT = ["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]


def mc(chk):
    chk.gen = chk.model("MC_SlateData", out="slates.ndjson")
    if not chk.quick:
        chk.model("MC_SlateData", "MC_SlateDataBig.cfg")


def conf(rng, big=False):
    fac = rng.random() < .35
    K = rng.randrange(2, 5 if big else 6)
    L = rng.randrange(2, 4)
    if not fac:
        L = min(L, K)
    binary = rng.random() < .75
    click = rng.choice([None, "pbm", "cascade"]) if binary else None
    return dict(K=K, L=L, fac=fac, binary=binary, click=click, eta=rng.choice([1.0, 0.5, 2.0, 0.0]), st=rng.choice(STRUCT), decay=rng.choice(["exponential", "inverse"]),
                dim=rng.randrange(1, 4), ctxfree=rng.random() < .2, seed=rng.randrange(10**6), scale=rng.choice([0.0, 1.0, 3.0, 10.0, 40.0]), unif=rng.random() < .15,
                clip=rng.choice([None, None, 650.0]), builtin=rng.random() < .3)


def cases(chk):
    rng = chk.rng("cases")
    out = []
    groups = {}
    for g in chk.gen:
        groups.setdefault((g["fac"], len(g["w"]), len(g["s"])), []).append(g)
    for (fac, K, L), gs in groups.items():
        rng.shuffle(gs)
        for i in range(0, len(gs) if not chk.quick else min(len(gs), 240), 6):
            out.append(dict(kind="pscore", src="spec", K=K, L=L, fac=fac, lg=[[math.log(num(v)) for v in g["w"]] for g in gs[i:i + 6]], act=[g["s"] for g in gs[i:i + 6]], seed=1, clip=None))
    for _ in range(60 if chk.quick else 800):
        c = conf(rng)
        n = rng.randrange(1, 5)
        lg = [[rng.gauss(0, c["scale"]) for _ in range(c["K"])] for _ in range(n)]
        act = [[rng.randrange(c["K"]) for _ in range(c["L"])] if c["fac"] else rng.sample(range(c["K"]), c["L"]) for _ in range(n)]
        out.append(dict(kind="pscore", src="random", K=c["K"], L=c["L"], fac=c["fac"], lg=lg, act=act, seed=c["seed"], clip=c["clip"]))
    for i in range(90 if chk.quick else 1200):
        c = conf(rng, True)
        c.update(kind="feedback", n=(200 if i % 6 == 0 else rng.randrange(1, 10)), batches=rng.choice([1, 2]))
        if c["n"] > 100:
            c.update(K=min(c["K"], 3), scale=min(c["scale"], 1.0), clip=None)
            if not c["fac"]:
                c["L"] = min(c["L"], c["K"])
        out.append(c)
    for i in range(14 if chk.quick else 120):
        c = conf(rng, True)
        c.update(kind="sampling", n=rng.choice([500, 1000]), scale=rng.choice([0.3, 1.0]), clip=None, K=3, L=rng.choice([2, 3, 3]), ctxfree=rng.random() < .3, eta=rng.choice([0.5, 1.0, 2.0]))
        c["batches"] = 1000 // c["n"]
        c["click"] = [None, "cascade", "pbm", "cascade"][i % 4]
        c["binary"] = c["click"] is not None or i % 8 == 0
        out.append(c)
    for _ in range(80 if chk.quick else 1000):
        c = conf(rng, True)
        c.update(kind="truth", n=rng.randrange(1, 4))
        out.append(c)
    for _ in range(60 if chk.quick else 600):
        c = conf(rng)
        c.update(kind="named", n=rng.randrange(1, 6), eps=rng.choice([0.0, 1.0, 0.25, rng.random()]), policy=rng.choice(["optimal", "anti-optimal", "random"]), ctxfree=False)
        out.append(c)
    big = dict(kind="named", K=140, L=2, fac=False, binary=True, click=None, eta=1.0, st="independent", decay="exponential", dim=1, ctxfree=False, seed=3, scale=1.0, unif=False, clip=None, builtin=False, n=2, eps=0.25, policy="optimal")
    out.append(big)
    wide = dict(big, kind="feedback", n=6, batches=1, noitem=True)      # more actions than an 8-bit index holds
    out += [wide, dict(wide, st="cascade_decay", binary=False, seed=4)]
    return out


def base_fn(case):
    """User-supplied base reward: a fixed function of the context, distinct per action."""
    if case.get("builtin"):
        return logistic_reward_function if case["binary"] else linear_reward_function

    def f(context, action_context, random_state=None):
        r = np.random.RandomState(case["seed"] % 1000)
        A, b = r.normal(size=(context.shape[1], action_context.shape[0])), r.normal(size=action_context.shape[0])
        x = context @ A + b
        return 1 / (1 + np.exp(-x)) if case["binary"] else x + 1.0
    return f


def dataset(case, lgfn=None):
    return SyntheticSlateBanditDataset(
        n_unique_action=case["K"], len_list=case["L"], dim_context=case.get("dim", 1), reward_type="binary" if case.get("binary", True) else "continuous",
        reward_structure=case.get("st", "independent"), decay_function=case.get("decay", "exponential"), click_model=case.get("click"), eta=case.get("eta", 1.0),
        base_reward_function=None if case.get("ctxfree", True) else base_fn(case), behavior_policy_function=lgfn, is_factorizable=case["fac"], random_state=case["seed"])


def err(r):
    return "%s: %s" % r[1:]


def rewardinfo(case, d, ctx):
    K, L = case["K"], case["L"]
    if case["ctxfree"]:
        base = [qa(d.sample_contextfree_expected_reward(random_state=case["seed"]))] * len(ctx)
    else:
        base = qa(base_fn(case)(context=ctx, action_context=np.eye(K, dtype=int), random_state=case["seed"]))
    return dict(K=K, L=L, fac=case["fac"], binary=case["binary"], click=case["click"] or "none", eta=q(case["eta"]), st=case["st"], decay=case["decay"],
                M=qa(d.action_interaction_weight_matrix), base=base, ctxfree=case["ctxfree"])


def run(case):
    kind, K, L = case["kind"], case["K"], case["L"]
    if kind == "pscore":
        lg, act = np.array(case["lg"]), np.array(case["act"]).flatten()
        d = dataset(case)
        rec = dict(kind=kind, K=K, L=L, fac=case["fac"], lg=qa(lg), act=ia(act), casc=[], ps=[], item=[], dist=[], err="")
        r = guarded(lambda: (d.obtain_pscore_given_evaluation_policy_logit(action=act, evaluation_policy_logit_=lg, clip_logit_value=case["clip"]), d.calc_evaluation_policy_action_dist(action=act, evaluation_policy_logit_=lg)))
        if r[0] == "err":
            return dict(rec, err=err(r))
        (ps, item, casc), dist = r[1]
        rec.update(casc=qa(casc), ps=qa(ps), item=qa(item), dist=qa(dist))
        return rec
    if kind in ("feedback", "sampling"):
        seen = []

        def lgfn(context, action_context, random_state=None):
            r = np.random.RandomState(case["seed"] % 997)
            x = case["scale"] * (context @ r.normal(size=(context.shape[1], K)) + r.normal(size=K))
            return x
        fn = None if case["unif"] else (linear_behavior_policy_logit if case["builtin"] else lgfn)
        mk = lambda: dataset(case, fn)

        def go():
            d = mk()
            bfs = [d.obtain_batch_bandit_feedback(n_rounds=case["n"], return_pscore_item_position=not case.get("noitem") and kind == "feedback", clip_logit_value=case["clip"]) for _ in range(case["batches"])]
            return d, bfs
        r = guarded(go)
        rec = dict(kind=kind, err="", lg=[], act=[], K=K, L=L, fac=case["fac"], casc=[], ps=[], item=[], dist=[])
        if r[0] == "err":
            return dict(rec, err=err(r))
        d, bfs = r[1]
        cat = lambda k: np.concatenate([b[k] for b in bfs])
        ctx = cat("context")
        f = fn or (lambda context, **k: np.zeros((len(context), K)))
        lg = np.concatenate([f(context=b["context"], action_context=np.eye(K, dtype=int), random_state=case["seed"]) for b in bfs])
        if kind == "sampling":
            return dict(rec, lg=qa(lg), act=ia(cat("action")), rew=qa(cat("reward")), exp=qa(cat("expected_reward_factual").astype(float)), pos=ia(cat("position")),
                        sid=ia(np.concatenate([b["slate_id"] + i * case["n"] for i, b in enumerate(bfs)])), binary=case["binary"], click=case["click"] or "none", eta=q(case["eta"]),
                        half=case["n"] if len(bfs) > 1 else 0, sgn=[bool(v > 0) for v in ctx[:, 0]])
        rec.update(rewardinfo(case, d, bfs[0]["context"]))
        rec["base"] = sum((rewardinfo(case, d, b["context"])["base"] for b in bfs), [])
        rec.update(lg=qa(lg), act=ia(cat("action")), casc=qa(cat("pscore_cascade")), ps=qa(cat("pscore")), item=[] if case.get("noitem") else qa(cat("pscore_item_position")),
                   rew=qa(cat("reward")), exp=qa(cat("expected_reward_factual").astype(float)), pos=ia(cat("position")),
                   sid=ia(np.concatenate([b["slate_id"] + i * case["n"] for i, b in enumerate(bfs)])),
                   onpolicy=q(np.mean([d.calc_on_policy_policy_value(reward=b["reward"], slate_id=b["slate_id"]) for b in bfs])))
        bf2 = go()[1]
        rec["same"] = all(np.array_equal(x[k], y[k]) for x, y in zip(bfs, bf2) for k in ("action", "reward", "context", "pscore", "expected_reward_factual"))
        return rec
    rng = np.random.RandomState(case["seed"])
    ctx = rng.normal(size=(case["n"], case["dim"]))
    if kind == "truth":
        d = dataset(case)
        lg = case["scale"] * rng.normal(size=(case["n"], K))
        rec = dict(kind=kind, err="", lg=qa(lg), value="nan")
        rec.update(rewardinfo(case, d, ctx))
        r = guarded(lambda: d.calc_ground_truth_policy_value(context=ctx, evaluation_policy_logit_=lg))
        if r[0] == "err":
            return dict(rec, err=err(r))
        return dict(rec, value=q(float(r[1])))
    if kind == "named":
        d = dataset(case)
        base = base_fn(case)(context=ctx, action_context=np.eye(K, dtype=int), random_state=case["seed"])
        order = np.argsort(-base, axis=1)
        act = []
        for i in range(case["n"]):
            m = rng.randint(4)
            if case["fac"]:
                s = [int(order[i, 0])] * L if m == 0 else [int(order[i, -1])] * L if m == 1 else [int(v) for v in rng.randint(K, size=L)]
            else:
                s = [int(v) for v in (order[i, :L] if m == 0 else order[i, ::-1][:L] if m == 1 else rng.permutation(K)[:L])]
                if m == 3:
                    s[0] = int(order[i, 0])
                    s[1:] = [int(v) for v in rng.permutation([a for a in range(K) if a != s[0]])[:L - 1]]
            act += s
        rec = dict(kind=kind, err="", K=K, L=L, fac=case["fac"], base=qa(base), act=act, eps=q(case["eps"]), policy=case["policy"], casc=[], ps=[], item=[])
        r = guarded(lambda: d.generate_evaluation_policy_pscore(evaluation_policy_type=case["policy"], context=ctx, action=np.array(act), epsilon=case["eps"]))
        if r[0] == "err":
            return dict(rec, err=err(r))
        ps, item, casc = r[1]
        return dict(rec, casc=qa(casc), ps=qa(ps), item=qa(item))
