import numpy as np
from common import q, num, guarded
import ope
import obp.ope as O

PID, CHECKER = "C06", "CheckC06"
ASSUMPTIONS = ["logs have at least two rounds (the interval width of a single round is undefined)",
               "candidates whose criteria differ by less than 1e-9 (relative) are interchangeable"]
CLS = {"ipw": O.InverseProbabilityWeightingTuning, "dr": O.DoublyRobustTuning, "switch-dr": O.SwitchDoublyRobustTuning,
       "dr-os": O.DoublyRobustWithShrinkageTuning, "sg-ipw": O.SubGaussianInverseProbabilityWeightingTuning, "sg-dr": O.SubGaussianDoublyRobustTuning}


def mc(chk):
    chk.gen = chk.model("MC_Tuning", out="t.ndjson")
    chk.model("MC_Slope")
    if not chk.quick:
        chk.model("MC_Tuning", "MC_TuningBig.cfg", workers=6)
        chk.model("MC_Slope", "MC_SlopeBig.cfg", workers=6)


def lams(rng, est, logs):
    if est.startswith("sg"):
        pool = ["0", "1", "1/2", "1/4", q(rng.uniform(0, 1)), q(rng.uniform(0, .1))]
    else:
        ws = [w for l in logs for w in ope.weights(l) if w.denominator & (w.denominator - 1) == 0]
        pool = ["0", "inf", "1", "2", "1/2", "5", q(rng.uniform(0, 5)), q(rng.uniform(0, 50))] + ([str(rng.choice(ws))] if ws else [])
    k = rng.choice([1, 2, 3, 4, 5])
    out = [rng.choice(pool) for _ in range(k)] if rng.random() < .3 else rng.sample(pool, min(k, len(pool)))
    rng.shuffle(out)
    return out


def mkcase(kind, rng, logs, nobj, flags=()):
    objs = []
    for _ in range(nobj):
        est = rng.choice(list(CLS))
        order = [rng.randrange(len(logs)) for _ in range(rng.choice([1, 1, 2, 3]))]
        objs.append(dict(est=est, lams=lams(rng, est, logs), method=rng.choice(["mse", "slope"]), ub=rng.random() < .5,
                         delta=q(rng.choice([.05, .1, .3, rng.uniform(.01, .45)])), eps=rng.random() < .3 and "eps" in logs[0][0],
                         order=order, interval=rng.random() < .2))
    return dict(kind=kind, logs=logs, objs=objs, flags=list(flags))


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, min(len(chk.gen), 250))
    for g in gen:
        out.append(mkcase("spec-log", rng, [g] if rng.random() < .6 else [g, rng.choice(gen)], 4))
    for _ in range(260 if chk.quick else 4000):
        style = rng.choice(["plain", "heavy", "heavy", "neg", "binary", "onpolicy", "sparse"])
        logs = [ope.random_log(rng, n=rng.choice([2, 3, 5, 8, 13, 30]), style=style) for _ in range(rng.choice([1, 1, 2]))]
        flags = [f for f in ("int32", "fortran", "strided") if rng.random() < .2]
        if all(len(l[0]["pi"][0]) == 1 for l in logs) and rng.random() < .5:
            flags.append("nopos")
        out.append(mkcase("random-log", rng, logs, 4, flags))
    for _ in range(40 if chk.quick else 400):     # dense candidate grids: the optimum moves with every term of the criterion
        c = mkcase("fine-grid", rng, [ope.random_log(rng, n=rng.choice([3, 4, 6, 9]), n_actions=rng.choice([2, 3]), style=rng.choice(["plain", "heavy", "neg"]))], 3)
        for ob in c["objs"]:
            sg = ob["est"].startswith("sg")
            ob["lams"] = [q(10 ** rng.uniform(-3, 0) if sg else 10 ** rng.uniform(-1, 2)) for _ in range(30)]
            ob["order"], ob["method"] = [0], rng.choice(["mse", "mse", "slope"])
            ob["ub"] = rng.random() < .8
        out.append(c)
    return out


def run(case):
    As = [ope.arrays(l, case["flags"]) for l in case["logs"]]
    calls = []
    for ob in case["objs"]:
        ls = [num(v) for v in ob["lams"]]
        given = list(ls)
        mk = guarded(lambda: CLS[ob["est"]](lambdas=given, tuning_method=ob["method"], use_bias_upper_bound=ob["ub"], delta=num(ob["delta"]), use_estimated_pscore=ob["eps"]))
        for k in ob["order"]:
            c = dict(log=k + 1, est=ob["est"], lams=ob["lams"], method=ob["method"], ub=ob["ub"], delta=ob["delta"], eps=ob["eps"], best=0, res="nan", err="", touched=False)
            calls.append(c)
            if mk[0] == "err":
                c["err"] = "%s: %s" % mk[1:]
                continue
            A = As[k]
            kw = dict(action_dist=A["action_dist"], position=A["position"], reward=A["reward"], action=A["action"])
            if "dr" in ob["est"]:
                kw["estimated_rewards_by_reg_model"] = A["estimated_rewards_by_reg_model"]
            kw["estimated_pscore" if ob["eps"] else "pscore"] = A["estimated_pscore" if ob["eps"] else "pscore"]
            t = mk[1]

            def go():
                if ob["interval"]:   # the interval tunes too; its centre is judged by C07
                    t.estimate_interval(**kw, n_bootstrap_samples=3, random_state=0)
                v = t.estimate_policy_value(**kw)
                return v, t.best_hyperparam
            r = guarded(go)
            if r[0] == "err":
                c["err"] = "%s: %s" % r[1:]
                continue
            c["res"] = q(r[1][0])
            c["best"] = ls.index(r[1][1]) + 1 if r[1][1] in ls else 0
            c["touched"] = given != ls
    return dict(logs=case["logs"], calls=calls)
