import numpy as np
from common import q, qa, guarded
from obp.simulator.coefficient_drifter import CoefficientDrifter

PID, CHECKER = "C18", "CheckC18"
ASSUMPTIONS = ["anchors of the linear schedule are read from a transition-free drifter with the same seed"]


def mc(chk):
    chk.gen = chk.model("MC_Drift", out="drift.ndjson")
    if not chk.quick:
        chk.model("MC_Drift", "MC_DriftBig.cfg")


def cases(chk):
    rng = chk.rng("cases")
    out = []
    gen = rng.sample(chk.gen, 500) if chk.quick else chk.gen
    rnd = []
    for _ in range(200 if chk.quick else 3000):
        D, n, reqs = rng.randrange(1, 12), rng.randrange(1, 40), []
        while sum(reqs) < n:
            reqs.append(rng.randrange(1, n - sum(reqs) + 1))
        rnd.append(dict(D=D, T=rng.randrange(0, 15), seasonal=rng.random() < .5, reqs=reqs, rand=True))
    for g in gen + rnd:
        out.append(dict(kind="random" if "rand" in g else "spec-schedule", D=g["D"], T=g["T"], seasonal=g["seasonal"], reqs=g["reqs"],
                        w=q(rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 0.9])), type=rng.choice(["linear", "linear", "weighted_sampled"]),
                        dims=[rng.choice([1, 2, 3]), rng.choice([1, 2, 4])], seed=rng.randrange(10**6), atinit=rng.random() < .3))
    for _ in range(5 if chk.quick else 60):     # long sampled schedules: how often a transition round shows the next anchor
        T = rng.randrange(1, 4)
        D = T + rng.randrange(1, 3)
        n = D * 900
        reqs = []
        while sum(reqs) < n:
            reqs.append(min(n - sum(reqs), rng.choice([1, 2, 7, D, 3 * D, 90, 400])))
        out.append(dict(kind="sampled-stat", D=D, T=T, seasonal=rng.random() < .5, reqs=reqs, w=q(rng.choice([0.0, 0.0, .5])), type="weighted_sampled",
                        dims=[1, 1], seed=rng.randrange(10**6), atinit=rng.random() < .3))
    return out


def coefs(dr, reqs, dims):
    parts = [[], [], []]
    for r in reqs:
        got = dr.get_coefficients(n_rounds=r, **dims)
        for p, g in zip(parts, got):
            g = np.asarray(g)
            if len(g) != r:
                raise ValueError("request of %d rounds returned %d rows" % (r, len(g)))
            p.append(g.reshape(r, -1))
    c, a, x = [np.vstack(p) for p in parts]
    return [dict(c=qa(c[i]), a=qa(a[i]), x=qa(x[i])) for i in range(len(c))]


def run(case):
    dc, da = case["dims"]
    dims = dict(effective_dim_context=dc, effective_dim_action_context=da)
    kw = dict(random_state=case["seed"])
    n = sum(case["reqs"])
    w = float(eval(case["w"]))
    rec = dict(case, n=n, err="", coefs=[], whole=[], anchors=[])

    def go():
        full = dict(kw, drift_interval=case["D"], transition_period=case["T"], transition_type=case["type"], seasonal=case["seasonal"], base_coefficient_weight=w)
        if case["atinit"]:
            rec["coefs"] = coefs(CoefficientDrifter(**full, **dims), case["reqs"], {})
        else:
            rec["coefs"] = coefs(CoefficientDrifter(**full), case["reqs"], dims)
        rec["whole"] = coefs(CoefficientDrifter(**full), [n], dims)
        if case["type"] == "linear":
            k = 2 if case["seasonal"] else n // case["D"] + 2
            one = CoefficientDrifter(drift_interval=1, **kw)   # one anchor per round
            rec["anchors"] = coefs(one, [k], dims)
    r = guarded(go)
    if r[0] == "err":
        rec["err"] = "%s: %s" % r[1:]
    return rec
