import random
import numpy as np
from common import q, qa, ia, num, guarded
from obp.policy import EpsilonGreedy, Random, BernoulliTS

PID, CHECKER = "C13", "CheckC13"
ASSUMPTIONS = ["exploration and posterior frequencies are compared at 6.5 standard deviations"]


def mc(chk):
    chk.gen = chk.model("MC_ContextFree", out="cf.ndjson")
    if not chk.quick:
        chk.model("MC_ContextFree", "MC_ContextFreeBig.cfg")


def ops_random(rng, K, n, style):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < .3:
            ops.append(dict(op="select", a=0, r="0"))
        elif x < .35:
            ops.append(dict(op="init", a=0, r="0"))
        else:
            ops.append(dict(op="update", a=rng.randrange(K), r=q(float(rng.randrange(2)) if style == "binary" else rng.choice([0., 1., -2.5, rng.gauss(0, 3)]))))
    return ops


def cases(chk):
    rng = chk.rng("cases")
    out = []
    for g in (rng.sample(chk.gen, 700) if chk.quick else rng.sample(chk.gen, 8000)):
        out.append(dict(kind="trace", src="spec", pol=rng.choice(["egreedy", "egreedy", "random", "bts"]), eps=rng.choice(["0", "0", "1/2", "1"]), K=2, L=rng.choice([1, 2]),
                        b=g["b"], ops=g["ops"], seed=rng.randrange(10**6)))
    for _ in range(250 if chk.quick else 3000):
        K = rng.randrange(2, 7)
        pol = rng.choice(["egreedy", "egreedy", "random", "bts"])
        out.append(dict(kind="trace", src="random", pol=pol, eps=rng.choice(["0", "0", "1/2", "1"]), K=K, L=rng.randrange(1, K + 1), b=rng.choice([1, 2, 3, 7, 20]),
                        ops=ops_random(rng, K, rng.randrange(5, 80), "binary" if pol == "bts" else rng.choice(["binary", "real"])), seed=rng.randrange(10**6)))
    for _ in range(60 if chk.quick else 400):
        pol = rng.choice(["egreedy", "random", "bts", "bts"])
        K = 2 if pol == "bts" else rng.randrange(2, 5)
        n = rng.randrange(0, 25)
        h = [dict(a=rng.randrange(K), r=str(rng.randrange(2))) for _ in range(n)]
        prior = rng.random() < .5
        out.append(dict(kind="stat", pol=pol, eps=rng.choice(["0", "1/4", "1/2", "1"]), K=K, L=rng.randrange(1, K + 1), b=rng.choice([1, 2, 4, 9]), h=h,
                        alpha=[str(rng.randrange(1, 6)) for _ in range(K)] if prior else ["1"] * K, beta=[str(rng.randrange(1, 6)) for _ in range(K)] if prior else ["1"] * K,
                        n=3000, seed=rng.randrange(10**6)))
    for _ in range(25 if chk.quick else 150):
        pol = rng.choice(["random", "bts", "bts"])
        K = rng.choice([2, 2, 3, 5])
        h = [dict(a=rng.randrange(K), r=str(rng.randrange(2))) for _ in range(rng.randrange(0, 12))]
        out.append(dict(kind="dist", pol=pol, eps="1", K=K, L=rng.randrange(1, K + 1), b=rng.choice([1, 2, 5]), h=h, alpha=["1"] * K, beta=["1"] * K, n=rng.randrange(1, 5), nsim=1500, seed=rng.randrange(10**6)))
    return out


def make(c):
    kw = dict(n_actions=c["K"], len_list=c["L"], batch_size=c["b"], random_state=c["seed"])
    if c["pol"] == "egreedy":
        return EpsilonGreedy(epsilon=float(num(c["eps"])), **kw)
    if c["pol"] == "random":
        return Random(**kw)
    if "alpha" in c and (c["alpha"] != ["1"] * c["K"] or c["beta"] != ["1"] * c["K"]):
        return BernoulliTS(alpha=np.array(num(c["alpha"])), beta=np.array(num(c["beta"])), **kw)
    return BernoulliTS(**kw)


def run(case):
    rec = dict(case, err="")
    if case["kind"] == "trace":
        rec["ops"], rec["again"], rec["fresh"] = [], [], []

        def go():
            p = make(case)
            seg, segsel = [], []
            for o in case["ops"]:
                ob = dict(o, sel=[])
                if o["op"] == "update":
                    p.update_params(action=o["a"], reward=num(o["r"]))
                    seg.append(o)
                elif o["op"] == "select":
                    ob["sel"] = ia(p.select_action())
                    seg.append(o)
                    segsel.append(ob["sel"])
                else:
                    p.initialize()
                    seg, segsel = [], []
                ob["trial"], ob["cnt"], ob["rew"] = int(p.n_trial), ia(p.action_counts), qa(p.reward_counts)
                rec["ops"].append(ob)
            # a policy re-initialised now behaves like a fresh one
            p.initialize()
            f = make(case)
            probe = [dict(op="select")] * 2 + [o for o in case["ops"] if o["op"] == "update"][:6] + [dict(op="select")] * 3
            for o in probe:
                for pol, dst in ((p, rec["again"]), (f, rec["fresh"])):
                    if o["op"] == "update":
                        pol.update_params(action=o["a"], reward=num(o["r"]))
                    else:
                        dst.append(ia(pol.select_action()))
            rec["again"].append(ia(p.action_counts))
            rec["fresh"].append(ia(f.action_counts))
        r = guarded(go)
    else:
        def go():
            p = make(case)
            for o in case["h"]:
                p.update_params(action=o["a"], reward=num(o["r"]))
            if case["kind"] == "stat":
                freq = [[0] * case["K"] for _ in range(case["L"])]
                for _ in range(case["n"]):
                    for pos, a in enumerate(p.select_action()):
                        freq[pos][int(a)] += 1
                rec["freq"] = freq
            else:
                d = p.compute_batch_action_dist(n_rounds=case["n"]) if case["pol"] == "random" else p.compute_batch_action_dist(n_rounds=case["n"], n_sim=case["nsim"])
                rec["dist"] = qa(d)
        r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        rec.setdefault("freq", [])
        rec.setdefault("dist", [])
    return rec
