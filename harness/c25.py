"""Environment simulator: request sequences of spec/MC_Env (and random longer ones) are made to
the real environment with recording reward, delay and coefficient functions."""
import functools
import numpy as np
from common import q, qa, ia, num, guarded
from obp.dataset import logistic_reward_function
from obp.simulator.simulator import BanditEnvironmentSimulator
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.coefficient_drifter import CoefficientDrifter

PID, CHECKER = "C25", "CheckC25"
ASSUMPTIONS = ["binary rewards", "reward functions that standardise over a batch are not used with drifting coefficients",
               "sampling frequencies are compared at 6.5 standard deviations"]


def mc(chk):
    chk.gen = chk.model("MC_Env", out="env.ndjson")
    if not chk.quick:
        chk.model("MC_Env", "MC_EnvBig.cfg", out="envbig.ndjson")


def options(rng):
    return dict(K=rng.randrange(2, 5), d=rng.randrange(1, 4), mode=rng.choice(["fixed", "function", "function", "drift"]), own=rng.random() < .5,
                da=rng.randrange(1, 3), delay=rng.choice(["", "", "given", "plain", "weighted"]), extreme=rng.random() < .3,
                D=rng.randrange(1, 8), T=rng.randrange(0, 6), seasonal=rng.random() < .5, w=q(rng.choice([0., .25, 1.])), seed=rng.randrange(1, 10 ** 6))


def cases(chk):
    rng = chk.rng("cases")
    out = []
    for g in rng.sample(chk.gen, min(len(chk.gen), 400 if chk.quick else 5000)):
        out.append(dict(options(rng), kind="spec-stream", reqs=g["reqs"]))
    for _ in range(60 if chk.quick else 900):
        reqs, nb = [], []
        for _ in range(rng.randrange(2, 9)):
            z = rng.random()
            if z < .4:
                reqs.append(dict(op="one", n=1, k=0))
            elif z < .8 or not nb:
                nb.append(rng.randrange(1, 25))
                reqs.append(dict(op="batch", n=nb[-1], k=0))
            else:
                k = rng.randrange(len(nb))
                reqs.append(dict(op="read", n=rng.randrange(1, nb[k] + 1), k=k + 1))
        out.append(dict(options(rng), kind="random-stream", reqs=reqs))
    for _ in range(8 if chk.quick else 80):
        o = options(rng)
        o.update(kind="long-stream", mode=rng.choice(["fixed", "function"]), extreme=False)
        out.append(dict(o, reqs=[dict(op="batch", n=rng.choice([200, 300]), k=0)] + [dict(op="one", n=1, k=0)] * 60))
    for _ in range(24 if chk.quick else 200):
        mx = rng.choice([2.0, 5.0, 20.0, 100.0])
        K = rng.randrange(2, 5)
        out.append(dict(kind="delay", which=rng.choice(["plain", "weighted"]), mx=q(mx), mn=q(rng.choice([.5, 1.0, mx])), K=K, n=3000,
                        er=[q(rng.choice([0., .25, .5, 1.])) for _ in range(K)], seed=rng.randrange(10 ** 6)))
    return out


def drifter(c):
    return CoefficientDrifter(drift_interval=c["D"], transition_period=c["T"], transition_type="linear", seasonal=c["seasonal"],
                              base_coefficient_weight=float(num(c["w"])), random_state=c["seed"])


def build(c, fn, df):
    """environment whose functions append what they see to the current lists in fn[0], df[0]."""
    r = np.random.RandomState(c["seed"] % 10007)
    kw = dict(n_actions=c["K"], dim_context=c["d"], random_state=c["seed"])
    actx = None
    if c["own"]:
        actx = np.round(r.normal(size=(c["K"], c["da"])), 3)
        kw["action_context"] = actx
    if c["mode"] == "function":
        wx = r.normal(size=(c["d"], c["K"]))

        def rf(context, action_context, random_state=None, **k):
            z = np.asarray(context) @ wx + np.asarray(action_context).sum(1)[None, :]
            er = (np.sign(z) + 1) / 2 if c["extreme"] else 1 / (1 + np.exp(-z))
            fn[0].append(dict(ctx=qa(context), actx=qa(np.asarray(action_context, dtype=float)), out=qa(er)))
            return er
        kw["reward_function"] = rf
    elif c["mode"] == "drift":
        kw.update(reward_function=functools.partial(logistic_reward_function, z_score=False), coef_function=drifter(c).get_coefficients)
    if c["delay"]:
        smp = ExponentialDelaySampler(max_scale=6.0, min_scale=1.0, random_state=c["seed"])

        def dfn(n_rounds=None, n_actions=None, expected_rewards=None, **k):
            if c["delay"] == "given":
                d = r.randint(0, 9, size=(n_rounds, n_actions))
            elif c["delay"] == "plain":
                d = smp.exponential_delay_function(n_rounds=n_rounds, n_actions=n_actions, expected_rewards=expected_rewards)
            else:
                d = smp.exponential_delay_function_expected_reward_weighted(expected_rewards=expected_rewards, n_rounds=n_rounds, n_actions=n_actions)
            df[0].append(dict(n=int(n_rounds), k=int(n_actions), er=qa(expected_rewards), out=qa(np.asarray(d, dtype=float))))
            return d
        kw["delay_function"] = dfn
    return BanditEnvironmentSimulator(**kw), actx


def show(br):
    dl = br.round_delays
    return dict(ctx=qa(np.asarray(br.context, dtype=float)), actx=qa(np.asarray(br.action_context, dtype=float)), r=qa(np.asarray(br.rewards, dtype=float)),
                er=qa(np.asarray(br.expected_rewards, dtype=float)), dl=[] if dl is None else qa(np.asarray(dl, dtype=float)))


def stream(c, recs):
    fn, df = [None], [None]
    env, actx = build(c, fn, df)
    held = []
    for o in c["reqs"]:
        fn[0], df[0] = [], []
        ob = dict(o, rounds=[], len=o["n"])
        if o["op"] == "one":
            ob["rounds"] = [show(env.next_bandit_round())]
        elif o["op"] == "batch":
            b = env.next_bandit_round_batch(n_rounds=o["n"])
            held.append(b)
            ob["rounds"], ob["len"] = [show(x) for x in b], len(b)
        else:
            for x in held[o["k"] - 1]:
                ob["rounds"].append(show(x))
                if len(ob["rounds"]) == o["n"]:
                    break
        ob["fn"], ob["df"] = fn[0], df[0]
        recs.append(ob)
    return env, actx


def run_env(c):
    rec = dict(c, err="", reqs=[], coefs=[], again=[], actx=[], hasdelay=bool(c["delay"]))
    total = sum(o["n"] for o in c["reqs"] if o["op"] != "read")

    def go():
        env, actx = stream(c, rec["reqs"])
        rec["actx"] = qa(np.asarray(env.action_context if actx is None else actx, dtype=float))
        if c["mode"] == "drift":
            m = rec["actx"]
            co = drifter(c).get_coefficients(n_rounds=total, effective_dim_context=c["d"] + 1, effective_dim_action_context=len(m[0]) + 1)
            rec["coefs"] = [dict(c=qa(co[0][i]), a=qa(co[1][i]), x=qa(co[2][i].reshape(-1))) for i in range(total)]
        two = []
        stream(c, two)
        rec["again"] = [r for o in two if o["op"] != "read" for r in o["rounds"]]
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    return rec


def run_delay(c):
    rec = dict(c, err="", bad="", m=[], below=[], calls=[], arms=[], lag=[])
    n, K = c["n"], c["K"]

    def go():
        mx, mn = float(num(c["mx"])), float(num(c["mn"]))
        s = ExponentialDelaySampler(max_scale=mx, min_scale=mn, random_state=c["seed"])
        er = np.tile([float(num(v)) for v in c["er"]], (n, 1))
        f = s.exponential_delay_function if c["which"] == "plain" else s.exponential_delay_function_expected_reward_weighted
        d = [np.asarray(f(n_rounds=n, n_actions=K, expected_rewards=er), dtype=float) for _ in range(2)]
        if any(x.shape != (n, K) for x in d):
            rec["bad"] = "delays do not have one row per round and one column per action"
            return
        if any((x < 0).any() or (x != np.floor(x)).any() for x in d):
            rec["bad"] = "a delay is not a non-negative whole number of rounds"
            return
        m = [max(1, int(round(mx * .7))), max(1, int(round(mx / 4)))]
        rec["m"] = [str(v) for v in m]
        rec["below"] = [[[int((x[:, a] <= v).sum()) for v in m] for a in range(K)] for x in d]
        h = [x <= m[0] for x in d]
        rec["calls"] = ia((h[0] & h[1]).sum(0))
        rec["arms"] = [int((h[0][:, a] & h[0][:, a + 1]).sum()) for a in range(K - 1)]
        # disjoint pairs of rounds: the counts are binomial
        rec["lag"] = ia((h[0][0::2] & h[0][1::2]).sum(0))
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    return rec


def run(case):
    return run_delay(case) if case["kind"] == "delay" else run_env(case)
