import shutil, tempfile, os, logging
import numpy as np, pandas as pd
from fractions import Fraction
from common import q, qa, ia, num, guarded
from obp.dataset import OpenBanditDataset
logging.disable(logging.INFO)

PID, CHECKER = "C23", "CheckC23"
ASSUMPTIONS = ["log files follow the Open Bandit Dataset column layout, item_context rows in item_id order",
               "propensities in the generated files are unique, so a row can be recognised by its propensity"]


def mc(chk):
    chk.gen = chk.model("MC_RealLog", out="files.ndjson")
    if not chk.quick:
        chk.model("MC_RealLog", "MC_RealLogBig.cfg")


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = chk.gen if not chk.quick else rng.sample(chk.gen, 150)
    tests = ["0", "1/4", "1/2", "1"]
    for g in gen:
        out.append(dict(kind="spec-file", rows=g, tests=tests, seed=rng.randrange(10**6), tz=0))
    for i in range(150 if chk.quick else 2000):
        n = rng.choice([1, 2, 5, 10, 17, 30, 60])
        nf, K = rng.randrange(1, 4), rng.randrange(1, 8)
        poss = rng.choice([[1, 2, 3], [1], [0, 1], [2, 5, 9], [1, 3]])
        span = rng.choice([1, 3, n, 10 * n])
        pss = rng.sample(range(1, 10 * n + 10), n)
        rows = [dict(ts=str(rng.randrange(span)), a=rng.randrange(K), p=rng.choice(poss), r=str(rng.randrange(2)), ps=str(Fraction(x, 16 * n + 16)),
                     f=[rng.randrange(rng.choice([1, 2, 4])) for _ in range(nf)]) for x in pss]
        if rng.random() < .2:
            rows.sort(key=lambda z: Fraction(z["ts"]))
        out.append(dict(kind="random-file", rows=rows, tests=[q(rng.choice([0.3, 0.5, 0.1, 0.9, 1 / 3, rng.random()])) for _ in range(2)], seed=rng.randrange(10**6), tz=rng.randrange(2)))
    return out


def rowsof(bf):
    return [dict(a=int(a), p=int(p), r=q(r), ps=q(s), x=[int(v) for v in x]) for a, p, r, s, x in zip(bf["action"], bf["position"], bf["reward"], bf["pscore"], bf["context"])]


def same(a, b):
    return all(np.array_equal(a[k], b[k]) for k in ("action", "position", "reward", "pscore", "context"))


def run(case):
    rows = [dict(r, ps=q(num(r["ps"]))) for r in case["rows"]]     # propensities as the doubles the file holds
    rng = np.random.RandomState(case["seed"])
    n = len(rows)
    top = tempfile.mkdtemp(prefix="verif-obd-")
    camp, beh = ["all", "men", "women"][case["seed"] % 3], ["bts", "random"][case["seed"] % 2]
    d = os.path.join(top, beh, camp)
    os.makedirs(d)
    rec = dict(rows=rows, full=[], again=[], K=0, L=0, onp="nan", splits=[], boots=[], actx=[], items=[], err="")
    try:
        nf = len(rows[0]["f"])
        df = pd.DataFrame({"timestamp": ["2019-11-24 00:%02d:%02d.%06d+00:00" % (int(r["ts"]) // 60 % 60, int(r["ts"]) % 60, int(r["ts"]) // 3600) if case["tz"] else int(r["ts"]) for r in rows],
                           "item_id": [r["a"] for r in rows], "position": [r["p"] for r in rows], "click": [int(r["r"]) for r in rows],
                           "propensity_score": [num(r["ps"]) for r in rows]})
        for j in range(nf):
            df["user_feature_%d" % j] = ["h%02d" % r["f"][j] for r in rows]
        for j in range(2):
            df["user-item_affinity_%d" % j] = rng.randint(3, size=n).astype(float)
        df.to_csv(os.path.join(d, camp + ".csv"), float_format="%.17g")
        K = max(r["a"] for r in rows) + 1
        f0 = [float(v) for v in rng.randint(-8, 8, size=K) / 4]
        cats = rng.randint(3, size=(K, 2))
        it = pd.DataFrame({"item_id": range(K), "item_feature_0": f0, "item_feature_1": ["c%d" % c for c in cats[:, 0]], "item_feature_2": ["c%d" % c for c in cats[:, 1]]})
        it.to_csv(os.path.join(d, "item_context.csv"))
        enc = [sorted(set(cats[:, j])) for j in range(2)]
        rec["items"] = [[enc[0].index(cats[k, 0]), enc[1].index(cats[k, 1]), q(f0[k])] for k in range(K)]
        rec["items"] = [[q(int(v)) if not isinstance(v, str) else v for v in it_] for it_ in rec["items"]]

        def load():
            ds = OpenBanditDataset(behavior_policy=beh, campaign=camp, data_path=top if case["seed"] % 5 else __import__("pathlib").Path(top))
            return ds, ds.obtain_batch_bandit_feedback()
        r = guarded(load)
        if r[0] == "err":
            rec["err"] = "%s: %s" % r[1:]
            return rec
        ds, bf = r[1]
        rec.update(full=rowsof(bf), K=int(bf["n_actions"]), L=int(ds.len_list), actx=qa(np.asarray(bf["action_context"], dtype=float)),
                   onp=q(OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy=beh, campaign=camp, data_path=__import__("pathlib").Path(top))))
        if int(bf["n_rounds"]) != n or not (len(bf["action"]) == len(bf["position"]) == len(bf["reward"]) == len(bf["pscore"]) == len(bf["context"]) == n):
            rec["err"] = "log arrays and n_rounds disagree"
            return rec
        for k, t in enumerate(case["tests"]):
            r = guarded(lambda: ds.obtain_batch_bandit_feedback(test_size=num(t), is_timeseries_split=True))
            if r[0] == "err":
                rec["splits"].append(dict(test=t, err="%s: %s" % r[1:]))
                continue
            tr, te = r[1]
            onp = ""
            if k == 0 and len(te["reward"]):
                onp = q(OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy=beh, campaign=camp, data_path=__import__("pathlib").Path(top), test_size=num(t), is_timeseries_split=True))
            rec["splits"].append(dict(test=t, err="", train=rowsof(tr), tst=rowsof(te), ntrain=int(tr["n_rounds"]), ntest=int(te["n_rounds"]), K=int(tr["n_actions"]) if tr["n_actions"] == te["n_actions"] else -1, onp=onp))
            for ts in (True, False):
                src = tr if ts else bf
                m = len(src["action"])
                if m == 0:
                    continue
                size = None if rng.rand() < .5 else int(rng.randint(0, m + 1))
                seed = int(rng.randint(10**6))
                f = lambda: ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=num(t), is_timeseries_split=ts, random_state=seed)
                b = guarded(f)
                if b[0] == "err":
                    rec["boots"].append(dict(err="%s: %s" % b[1:], log=[], src=[], n=0, size=0, same=True))
                    continue
                rec["boots"].append(dict(err="", log=rowsof(b[1]), src=rowsof(src), n=int(b[1]["n_rounds"]), size=m if size is None else size, same=same(b[1], f())))
        rec["again"] = rowsof(ds.obtain_batch_bandit_feedback())
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return rec
