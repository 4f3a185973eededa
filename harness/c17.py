"""Simulated interaction: replay TLC histories of spec/MC_Delays and random ones through the
real simulator with a recording policy; every recorded run is judged as a behaviour of Delays."""
import copy, random
import numpy as np
from common import q, qa, ia, guarded
from obp.policy.policy_type import PolicyType
from obp.policy import EpsilonGreedy, BernoulliTS, LinUCB, LinTS
from obp.simulator.simulator import BanditPolicySimulator, BanditEnvironmentSimulator, BanditRound, BanditRounds, calc_ground_truth_policy_value
from obp.simulator.delay_sampler import ExponentialDelaySampler

PID, CHECKER = "C17", "CheckC17"
ASSUMPTIONS = ["delays are non-negative whole numbers of rounds", "flushed feedback may be delivered in any order",
               "interruptions happen between rounds, not inside a policy call"]


class Spy:
    """A policy that records what it is asked and told; choices come from `inner` or a seeded stream."""
    def __init__(self, cf, K, L, seed, log, inner=None, counter=None):
        self.cf, self.K, self.L, self.log, self.inner = cf, K, L, log, inner
        self.rng = random.Random(seed)
        self.copy_id, self.counter = 0, counter if counter is not None else [0]
        self.policy_name, self.n_actions, self.len_list = "spy", K, L
        self.policy_type = PolicyType.CONTEXT_FREE if cf else PolicyType.CONTEXTUAL

    def __deepcopy__(self, memo):
        c = Spy(self.cf, self.K, self.L, self.rng.random(), self.log, copy.deepcopy(self.inner, memo), self.counter)
        self.counter[0] += 1
        c.copy_id = self.counter[0]
        return c

    def select_action(self, context=None):
        if self.inner is not None:
            a = self.inner.select_action() if self.cf else self.inner.select_action(context)
        else:
            a = np.array(self.rng.sample(range(self.K), self.L))
        self.log.append(dict(k="select", a=ia(a), ctx=[] if context is None else qa(np.array(context).flatten()), copy=self.copy_id))
        return a

    def update_params(self, action, reward, context=None):
        if self.inner is not None:
            if self.cf:
                self.inner.update_params(action=action, reward=reward)
            else:
                self.inner.update_params(action=action, reward=reward, context=context)
        self.log.append(dict(k="update", a=int(action), r=q(np.asarray(reward).reshape(-1)[0]),
                             ctx=[] if context is None else qa(np.array(context).flatten()), copy=self.copy_id))


def mc(chk):
    chk.gen = chk.model("MC_Delays", out="hist.ndjson")
    if not chk.quick:
        chk.model("MC_Delays", "MC_DelaysBig.cfg")


def cases(chk):
    rng = chk.rng("cases")
    out = []
    hs = chk.gen if not chk.quick else rng.sample(chk.gen, 900)
    for h in hs:
        out.append(dict(kind="sim", h=h, cf=rng.random() < .5, K=rng.choice([2, 3]), L=rng.choice([1, 1, 2]),
                        perarm=rng.random() < .3, group=rng.choice([0, 0, 1]), seed=rng.randrange(10**6), inner=rng.random() < .3))
    for _ in range(250 if chk.quick else 3000):
        n = rng.randrange(4, 40)
        style = rng.choice(["mixed", "delayed", "none", "long", "collide"])
        h = []
        for t in range(n):
            if rng.random() < .08 and t and h[-1]["op"] != "flush":
                h.append(dict(op="flush", d=0))
            d = {"mixed": rng.choice([-1, 0, 1, 2, 5]), "delayed": rng.choice([0, 1, 2, 3, 4]), "none": -1,
                 "long": rng.choice([0, 7, 50, 10**9]), "collide": max(0, 8 - t % 9)}[style]
            h.append(dict(op="step", d=d))
        if rng.random() < .6:
            h.append(dict(op="flush", d=0))
        out.append(dict(kind="sim", h=h, cf=rng.random() < .5, K=rng.choice([2, 3, 5]), L=rng.choice([1, 2]),
                        perarm=rng.random() < .5, group=rng.choice([0, 1, 2, 3]), seed=rng.randrange(10**6), inner=rng.random() < .3))
    for _ in range(60 if chk.quick else 600):
        out.append(dict(kind="value", cf=rng.random() < .5, K=rng.choice([2, 3]), L=rng.choice([1, 2]), n=rng.randrange(1, 7),
                        nsim=rng.choice([1, 2, 5]), seed=rng.randrange(10**6), inner=rng.random() < .5))
    for _ in range(40 if chk.quick else 300):
        out.append(dict(kind="delay", n=rng.randrange(1, 30), K=rng.randrange(2, 6), which=rng.choice(["plain", "weighted"]),
                        mx=rng.choice([0.01, 1.0, 20.0, 100.0]), mn=rng.choice([0.0, 0.5, 10.0]), seed=rng.randrange(10**6)))
    return out


def inner_policy(cf, K, L, dim, seed):
    rng = random.Random(seed)
    if cf:
        return rng.choice([EpsilonGreedy(n_actions=K, len_list=L, epsilon=.3, batch_size=rng.choice([1, 2]), random_state=seed),
                           BernoulliTS(n_actions=K, len_list=L, random_state=seed)])
    return rng.choice([LinUCB(dim=dim, n_actions=K, len_list=L, epsilon=.5, random_state=seed), LinTS(dim=dim, n_actions=K, len_list=L, random_state=seed)])


class Interrupted(Exception):
    pass


def run_sim(case):
    rng = random.Random(case["seed"])
    K, L, dim = case["K"], case["L"], 2
    log = []
    pol = Spy(case["cf"], K, L, case["seed"], log, inner_policy(case["cf"], K, L, dim, case["seed"]) if case["inner"] else None)
    ops = []
    for o in case["h"]:
        if o["op"] == "flush":
            ops.append(dict(op="flush", evs=[]))
            continue
        d = [] if o["d"] < 0 else [o["d"]] * K
        if d and case["perarm"]:
            d = [max(0, o["d"] + rng.choice([0, 0, 1, -1, 2])) for _ in range(K)]
        ops.append(dict(op="step", ctx=[rng.gauss(0, 1) for _ in range(dim)], rewards=[rng.choice([0, 1]) if rng.random() < .7 or case["inner"] else rng.gauss(0, 1) for _ in range(K)],
                        delays=d, evs=[], played=-1, total="0"))
    env = BanditEnvironmentSimulator(n_actions=K, dim_context=dim, random_state=case["seed"] % 1000)
    drawn = []
    use_env = case["group"] == 3
    if use_env:
        stream = [o for o in ops if o["op"] == "step"]
        def next_round(orig=env.next_bandit_round):
            br = orig()                      # real context and rewards, scheduled delays
            o = stream[len(drawn)]
            br.round_delays = np.array(o["delays"]) if o["delays"] else None
            drawn.append(br)
            return br
        env.next_bandit_round = next_round
    sim = BanditPolicySimulator(policy=pol, environment=env)
    as_round = lambda o: BanditRound(n_actions=K, context=np.array(o["ctx"]), action_context=np.eye(K), rewards=np.array(o["rewards"]),
                                     expected_rewards=np.array(o["rewards"]), round_delays=np.array(o["delays"]) if o["delays"] else None)

    def go():
        i = 0
        while i < len(ops):
            if ops[i]["op"] == "flush":
                m = len(log)
                sim.clear_delayed_queue()
                ops[i]["evs"] = log[m:]
                i += 1
                continue
            j = i + 1
            if case["group"] and case["group"] != 3:
                lim = rng.choice([1, 2, 3, 99])
                while j < len(ops) and ops[j]["op"] == "step" and j - i < lim and bool(ops[j]["delays"]) == bool(ops[i]["delays"]):
                    j += 1
            elif use_env:
                while j < len(ops) and ops[j]["op"] == "step" and j - i < 3:
                    j += 1
            chunk, m = ops[i:j], len(log)
            if use_env:
                sim.steps(n_rounds=len(chunk))
                for o, br in zip(chunk, drawn[-len(chunk):]):
                    o["ctx"], o["rewards"] = np.array(br.context).flatten().tolist(), np.array(br.rewards).tolist()
            elif case["group"] == 1:
                dl = np.array([o["delays"] for o in chunk]) if chunk[0]["delays"] else None
                batch = BanditRounds(n_rounds=len(chunk), n_actions=K, context=np.array([o["ctx"] for o in chunk]), action_context=np.eye(K),
                                     rewards=np.array([o["rewards"] for o in chunk]), expected_rewards=np.array([o["rewards"] for o in chunk]), round_delays=dl)
                sim.steps(batch_bandit_rounds=batch)
            elif case["group"] == 2:      # the source of rounds fails after the last one
                def source():
                    for o in chunk:
                        yield as_round(o)
                    raise Interrupted()
                class It:
                    def __iter__(self): return source()
                    def __bool__(self): return True
                    def __len__(self): return len(chunk)
                try:
                    sim.steps(batch_bandit_rounds=It())
                except Interrupted:
                    pass
            else:
                sim.step(as_round(chunk[0]))
            evs, k = log[m:], -1
            for e in evs:
                if e["k"] == "select":
                    k += 1
                if 0 <= k < len(chunk):
                    chunk[k]["evs"].append(e)
                else:
                    chunk[-1]["evs"].append(e)
            chunk[-1]["played"], chunk[-1]["total"] = int(sim.rounds_played), q(sim.total_reward)
            i = j
        return True
    r = guarded(go)
    at = [i + 1 for i, o in enumerate(ops) if o["op"] == "step"]
    for o in ops:
        if o["op"] == "step":
            o["ctx"], o["rewards"] = qa(o["ctx"]), qa(o["rewards"])
    rec = dict(kind="sim", cf=case["cf"], ops=ops, at=at, err="", selected=[], obtained=[], contexts=[], truth=[])
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    elif at:
        rec.update(selected=ia(sim.selected_actions), obtained=qa(sim.obtained_rewards), contexts=qa(sim.contexts), truth=qa(sim.ground_truth_rewards))
    return rec


def run_value(case):
    rng = random.Random(case["seed"])
    K, L, n, dim = case["K"], case["L"], case["n"], 2
    log, samples = [], []
    pol = Spy(case["cf"], K, L, case["seed"], log, inner_policy(case["cf"], K, L, dim, case["seed"]) if case["inner"] else None)
    bf = dict(n_rounds=n, context=np.array([[rng.gauss(0, 1) for _ in range(dim)] for _ in range(n)]), action=np.array([rng.randrange(K) for _ in range(n)]),
              position=np.array([rng.randrange(L) for _ in range(n)]), reward=np.array([float(rng.randrange(2)) for _ in range(n)]),
              expected_reward=np.array([[rng.random() for _ in range(K)] for _ in range(n)]))

    def sampler(context, action):
        r = float(rng.randrange(2))
        log.append(dict(k="sample", ctx=qa(np.array(context).flatten()), a=int(np.asarray(action).reshape(-1)[0]), r=q(r)))
        return r
    r = guarded(lambda: calc_ground_truth_policy_value(bandit_feedback=bf, reward_sampler=sampler, policy=pol, n_sim=case["nsim"]))
    rounds = [dict(ctx=qa(bf["context"][i]), p=int(bf["position"][i]), er=qa(bf["expected_reward"][i])) for i in range(n)]
    return dict(kind="value", cf=case["cf"], nsim=case["nsim"], rounds=rounds, evs=log, res=q(r[1]) if r[0] == "ok" else "nan",
                err="" if r[0] == "ok" else "%s: %s" % r[1:])


def run_delay(case):
    s = ExponentialDelaySampler(max_scale=case["mx"], min_scale=min(case["mn"], case["mx"]), random_state=case["seed"])
    er = np.random.RandomState(case["seed"]).uniform(size=(case["n"], case["K"]))
    if case["which"] == "plain":
        r = guarded(lambda: s.exponential_delay_function(n_rounds=case["n"], n_actions=case["K"], expected_rewards=er))
    else:
        r = guarded(lambda: s.exponential_delay_function_expected_reward_weighted(expected_rewards=er, n_rounds=case["n"], n_actions=case["K"]))
    return dict(kind="delay", n=case["n"], k=case["K"], same=case["which"] == "plain", d=qa(r[1]) if r[0] == "ok" else [],
                err="" if r[0] == "ok" else "%s: %s" % r[1:])


def run(case):
    return {"sim": run_sim, "value": run_value, "delay": run_delay}[case["kind"]](case)
