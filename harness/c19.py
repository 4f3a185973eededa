import copy, random
import numpy as np
from common import q, qa, ia, num, guarded
from c17 import Spy, inner_policy
from obp.simulator.replay import run_bandit_replay
from obp.ope import ReplayMethod

PID, CHECKER = "C19", "CheckC19"
ASSUMPTIONS = ["the policy selects lists of distinct actions of its own action set"]


class Scripted(Spy):
    script = None

    def select_action(self, context=None):
        a = np.array(self.script.pop(0))
        self.log.append(dict(k="select", a=ia(a), ctx=[] if context is None else qa(np.array(context).flatten()), copy=0))
        return a


def mc(chk):
    chk.gen = chk.model("MC_Replay", out="replay.ndjson")
    if not chk.quick:
        chk.model("MC_Replay", "MC_ReplayBig.cfg")


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, 700)
    for g in gen:
        out.append(dict(kind="spec-replay", log=g["log"], sels=g["sels"], K=g["K"], L=g["L"], cf=rng.random() < .5, nopos=False, seed=rng.randrange(10**6)))
    for _ in range(300 if chk.quick else 4000):
        K, L, n = rng.randrange(2, 6), rng.choice([1, 1, 2, 3]), rng.randrange(1, 30)
        L = min(L, K)
        top = rng.choice([K, K, max(1, K - 2)])   # the largest action may never be logged
        nopos = L == 1 and rng.random() < .5
        log = [dict(a=rng.randrange(top), p=0 if nopos else rng.randrange(L), r=q(rng.choice([0.0, 1.0, 1.0, rng.random()])),
                    ctx=qa([rng.gauss(0, 1), rng.gauss(0, 1)])) for _ in range(n)]
        cf = rng.random() < .5
        out.append(dict(kind="random-replay", log=log, sels=None, K=K, L=L, cf=cf, nopos=nopos, seed=rng.randrange(10**6), inner=rng.random() < .6))
    return out


def run(case):
    log, K, L, n = case["log"], case["K"], case["L"], len(case["log"])
    ev = []
    if case["sels"]:
        pol = Scripted(case["cf"], K, L, case["seed"], ev)
        pol.script = [list(s) for s in case["sels"]]
        ctx = np.array([[num(v) for v in rd["ctx"]] for rd in log])
    else:
        pol = Spy(case["cf"], K, L, case["seed"], ev, inner_policy(case["cf"], K, L, 2, case["seed"]) if case.get("inner") else None)
        ctx = np.array([[num(v) for v in rd["ctx"]] for rd in log])
    rw = np.array([num(rd["r"]) for rd in log])
    pos = np.array([rd["p"] for rd in log])
    bf = dict(n_rounds=n, n_actions=K, action=np.array([rd["a"] for rd in log]), position=None if case["nopos"] else pos,
              reward=rw, pscore=np.full(n, 1. / K), context=ctx)
    before = copy.deepcopy(bf)
    r = guarded(lambda: run_bandit_replay(bandit_feedback=bf, policy=pol))
    rec = dict(log=log, cf=case["cf"], evs=ev, dist=[], mutated=[], value="nan", err="")
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
        return rec
    d = np.asarray(r[1])
    rec["dist"] = qa(d)
    rec["mutated"] = [k for k in set(before) | set(bf) if (k in before) != (k in bf) or (before[k] is None) != (bf[k] is None) or not np.array_equal(before[k], bf[k])]
    need = int(before["action"].max()) + 1
    if d.ndim == 3 and d.shape[1] >= need:
        v = guarded(lambda: ReplayMethod().estimate_policy_value(reward=rw, action=before["action"], action_dist=d, position=pos))
        rec["value"] = q(v[1]) if v[0] == "ok" else "nan"
    return rec
