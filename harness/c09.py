"""Input validation: TLC's plans of spec/MC_Inputs say which arguments to spoil, how and at which row;
the data built from a plan are judged by spec/Inputs (which looks at the data, not at the plan)."""
import random
import numpy as np
import torch
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from common import q, qa, num, guarded
import obp.ope as O
import obp.policy as P
import obp.dataset as D
from obp.simulator.simulator import BanditEnvironmentSimulator
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

PID, CHECKER = "C09", "CheckC09"
ASSUMPTIONS = ["a call rejects its data when it raises, whatever the exception",
               "elements are finite numbers; NaN and infinities are outside the documented domain and not judged",
               "sums of probabilities are either within 1e-12 or off by at least 0.05"]


def mc(chk):
    chk.gen = chk.model("MC_Inputs", out="p.ndjson", workers=4)
    chk.par = chk.model("MC_Params", out="v.ndjson", workers=2)
    if not chk.quick:
        chk.model("MC_Inputs", "MC_Inputs3.cfg", workers=6)


def cases(chk):
    rng = chk.rng("cases")
    zero = [g for g in chk.gen if len(g["plan"]) == 0]
    one = [g for g in chk.gen if len(g["plan"]) == 1]
    two = [g for g in chk.gen if len(g["plan"]) == 2]
    mend = [g for g in two if g["fine"]]
    out = []
    for rep in range(1 if chk.quick else 6):
        pick = zero * 6 + one + rng.sample(mend, min(len(mend), 300)) + rng.sample(two, 900 if chk.quick else 9000)
        for g in pick:
            out.append(dict(kind="inputs", site=g["site"], L=g["L"], plan=g["plan"], fine=g["fine"], seed=rng.randrange(10**6)))
    out += [dict(kind="params", **v) for v in chk.par if "v" in v]
    out += [dict(kind="choices", **v) for v in chk.par if "c" in v]
    return out


# ------------------------------------------------------------ well-formed data
def soft(r, n, K, L):
    e = r.randint(1, 9, (n, K, L)).astype(float)
    return e / e.sum(1, keepdims=True)


def base(site, L, r):
    K = int(r.randint(2, 5))
    if site in ("sips", "iips", "rips", "cdr"):
        ns, L = int(r.randint(2, 5)), int(r.randint(2, 4))
        n = ns * L
        sid, pos = np.repeat(np.arange(ns) * 3, L), np.tile(np.arange(L), ns)
        casc = lambda: np.cumprod(r.uniform(.3, 1, (ns, L)), 1).reshape(-1)
        g = dict(slate_id=sid, position=pos, reward=r.randn(n))
        if site == "sips":
            g.update(pscore=np.repeat(r.uniform(.1, 1, ns), L), epscore=np.repeat(r.uniform(0, 1, ns), L))
        elif site == "iips":
            g.update(pscore=r.uniform(.1, 1, n), epscore=r.uniform(0, 1, n))
        else:
            g.update(pscore=casc(), epscore=casc())
        if site == "cdr":
            g.update(action=r.randint(K, size=n), q=r.randn(n * K), dist=soft(r, n, K, 1).reshape(-1))
        if r.rand() < .5:
            i = r.permutation(n)
            g = {k: (v.reshape(n, -1)[i].reshape(v.shape)) for k, v in g.items()}
        return g, K, L
    if site == "slate-reg":
        m, L = int(r.randint(3, 6)), int(r.randint(1, 4))
        n = m * L
        return dict(context=r.randn(m, 2), action=r.randint(K, size=n), reward=r.randn(n), pscore=r.uniform(.1, 1, n), epscore=r.uniform(.1, 1, n), dist=soft(r, n, K, 1).reshape(-1)), K, L
    if site in ("kipw", "kdr"):
        n = int(r.randint(3, 9))
        g = dict(action_by_evaluation_policy=r.randn(n), action_by_behavior_policy=r.randn(n), reward=r.randn(n), pscore=r.uniform(.1, 2, n))
        if site == "kdr":
            g["q"] = r.randn(n)
        return g, K, 1
    if site == "learner-predict":
        return dict(context=r.randn(int(r.randint(2, 6)), 2)), K, L
    if site == "online-select":
        return dict(context=r.randn(1, 2)), K, L
    if site == "cnn-learner":
        n = int(r.randint(8, 14))
        return dict(context=r.randn(n, 2), action=r.randn(n), reward=r.randn(n), pscore=r.uniform(.1, 1, n)), K, 1
    fit = site in ("reg-normal", "reg-iw", "iw", "ps", "ipw-learner", "q-learner", "nn-learner", "mips")
    n = int(r.randint(4, 9)) if not fit else 8 * K * L
    act = r.randint(K, size=n)
    if fit:
        act = np.arange(n) % K
    pos = (np.arange(n) // K) % L if fit else r.randint(L, size=n)
    g = dict(action_dist=soft(r, n, K, L), position=pos, action=act, reward=r.randn(n), pscore=r.uniform(.05, 1, n), q=r.randn(n, K, L), w=r.uniform(0, 3, n) * (r.rand(n) < .8),
             stratum_idx=r.randint(3, size=n), context=r.randn(n, 2), pi_b=soft(r, n, K, L), action_embed=r.randint(2, size=(n, 2)))
    if site == "ipw-learner":
        g["reward"] = r.uniform(0, 1, n)
    return g, K, L


ARGS = {"dm": "action_dist position q", "rm": "action_dist position action reward", "bipw": "action_dist position action reward w", "mips": "action_dist position action reward pi_b action_embed context",
        "reg-normal": "context action reward position", "reg-iw": "context action reward position pscore action_dist", "iw": "context action position action_dist", "ps": "context action position",
        "ipw-learner": "context action reward position pscore", "q-learner": "context action reward position pscore", "nn-learner": "context action reward pscore"}
for s_ in ("ipw", "multi-ipw"):
    ARGS[s_] = "action_dist position action reward pscore"
for s_ in ("dr", "multi-dr"):
    ARGS[s_] = "action_dist position action reward pscore q"
ARGS["multi-wipw"], ARGS["multi-wdr"] = ARGS["ipw"] + " stratum_idx", ARGS["dr"] + " stratum_idx"


# --------------------------------------------------------------------- spoiling
def spoil(g, p, K, L, r, site):
    name, d, a = p["arg"], p["d"], g[p["arg"]]
    flat = p["kind"] in ("flat", "flatdist")
    n = len(a) // K if flat else len(a)
    row = {"first": 0, "mid": n // 2, "last": n - 1}.get(p["row"], 0)
    if d == "none":
        return None
    if d == "list":
        return a.tolist()
    if d == "dim":
        return a[..., None] if (a.ndim == 1 or r.rand() < .5) else a[..., 0]
    if d in ("short", "long"):
        step = K if flat else 1
        if d == "long":
            return np.concatenate([a, a[-step:]])
        return a[:-step]
    a = a.copy()
    if d == "ragged":
        return np.append(a, a[-1]) if r.rand() < .5 else a[:-1]
    if d == "wide":
        return np.concatenate([a, a[:, -1:] * (0 if p["kind"] in ("dist", "pinned") else 1)], 1)
    if d == "narrow":
        return a[:, :1]
    if d == "float":
        return a.astype(float)
    if d == "int32":
        return a.astype([np.int32, np.int8, np.uint8, np.int16][r.randint(4)])
    if d == "ints":
        return np.round(a).astype(int)
    if d == "view":
        return np.asfortranarray(a) if a.ndim > 1 else np.repeat(a, 2)[::2]
    if d == "neg":
        a[row] = -1 if a.dtype.kind == "i" else -r.choice([1e-6, .3, 2.0])
    elif d == "zero":
        a[row] = 0
    elif d == "over":
        a[row] = ({"slots": L}.get(p["kind"], K) + r.choice([0, 0, 3])) if a.dtype.kind == "i" else r.choice([1.0001, 2.0])
    elif d == "sum":
        if a.ndim == 3:
            a[row, r.randint(K), r.randint(a.shape[2])] += r.choice([.05, .4, 1.0])
        else:
            a[row * K + r.randint(K)] += r.choice([.05, .4, 1.0])
    elif d == "mass":                     # sums to one with a negative probability
        i, j = r.permutation(K)[:2]
        if a.ndim == 3:
            l = r.randint(a.shape[2])
            x = a[row, i, l] + r.choice([.01, .2])
            a[row, i, l] -= x
            a[row, j, l] += x
        else:
            x = a[row * K + i] + r.choice([.01, .2])
            a[row * K + i] -= x
            a[row * K + j] += x
    elif d in ("dup", "uneven", "rising"):
        sid = g["slate_id"]
        mates = [i for i in range(len(sid)) if sid[i] == sid[row] and i != row]
        m = mates[r.randint(len(mates))]
        if d == "dup":
            a[row] = a[m]
        elif d == "uneven":
            a[row] = a[row] * .5
        else:
            lo, hi = sorted([row, m], key=lambda i: g["position"][i])
            a[hi] = (1 + a[lo]) / 2
    return a


def describe(a):
    if a is None:
        return dict(given=False, arr=False, shape=[], int=False, v=[])
    if not isinstance(a, np.ndarray):
        return dict(given=True, arr=False, shape=[], int=False, v=[])
    return dict(given=True, arr=True, shape=list(a.shape), int=bool(np.issubdtype(a.dtype, np.integer)), v=[q(x) for x in a.reshape(-1).tolist()])


# ------------------------------------------------------------------------ calls
def finite(x):
    vals = list(x.values()) if isinstance(x, dict) else x
    try:
        return bool(np.isfinite(np.asarray(vals, dtype=float)).all())
    except (TypeError, ValueError):
        return False


def call(site, g, K, L, r):
    """A function that makes the call, and its name."""
    interval = r.rand() < .3

    def est(m, **kw):
        if interval:
            return (lambda: m.estimate_interval(n_bootstrap_samples=3, random_state=1, **kw)), type(m).__name__ + ".estimate_interval"
        return (lambda: m.estimate_policy_value(**kw)), type(m).__name__ + ".estimate_policy_value"
    pick = lambda *c: c[r.randint(len(c))]
    if site in ("dm", "rm", "ipw", "dr", "bipw"):
        kw = dict(action_dist=g["action_dist"], position=g["position"])
        if site != "dm":
            kw.update(action=g["action"], reward=g["reward"])
        if site in ("ipw", "dr"):
            kw["pscore"] = g["pscore"]
        if site in ("dm", "dr"):
            kw["estimated_rewards_by_reg_model"] = g["q"]
        if site == "bipw":
            kw["estimated_importance_weights"] = g["w"]
        m = {"dm": lambda: O.DirectMethod(), "rm": lambda: O.ReplayMethod(), "bipw": lambda: O.BalancedInverseProbabilityWeighting(lambda_=5.0),
             "ipw": lambda: pick(O.InverseProbabilityWeighting(), O.SelfNormalizedInverseProbabilityWeighting(), O.SubGaussianInverseProbabilityWeighting(lambda_=.3), O.InverseProbabilityWeightingTuning(lambdas=[1., 5.]),
                                 O.SubGaussianInverseProbabilityWeightingTuning(lambdas=[.1, .5], tuning_method="mse")),
             "dr": lambda: pick(O.DoublyRobust(), O.SelfNormalizedDoublyRobust(), O.SwitchDoublyRobust(lambda_=2.), O.DoublyRobustWithShrinkage(lambda_=2.), O.SubGaussianDoublyRobust(lambda_=.3),
                                O.DoublyRobustTuning(lambdas=[1., 5.]), O.SwitchDoublyRobustTuning(lambdas=[1., 5.], tuning_method="mse"), O.DoublyRobustWithShrinkageTuning(lambdas=[1., 5.]), O.SubGaussianDoublyRobustTuning(lambdas=[.1, .5]))}[site]()
        if site in ("ipw", "dr") and r.rand() < .25 and hasattr(m, "use_estimated_pscore"):
            m.use_estimated_pscore = True
            kw["estimated_pscore"] = kw["pscore"]
            kw["pscore"] = None
        return est(m, **kw)
    if site == "mips":
        m = pick(O.MarginalizedInverseProbabilityWeighting, O.SelfNormalizedMarginalizedInverseProbabilityWeighting)(n_actions=K, pi_a_x_e_estimator=GaussianNB())
        return est(m, reward=g["reward"], action=g["action"], action_embed=g["action_embed"], pi_b=g["pi_b"], action_dist=g["action_dist"], context=g["context"], position=g["position"])
    if site.startswith("multi"):
        kw = dict(action_dist=g["action_dist"], position=g["position"], action=g["action"], reward=g["reward"])
        dr = site.endswith("dr")
        if dr:
            kw["estimated_rewards_by_reg_model"] = g["q"]
        if "-w" in site:
            m = O.MultiLoggersWeightedDoublyRobust() if dr else O.MultiLoggersWeightedInverseProbabilityWeighting()
            kw.update(pscore=g["pscore"], stratum_idx=g["stratum_idx"])
        elif r.rand() < .5:
            m = O.MultiLoggersNaiveDoublyRobust() if dr else O.MultiLoggersNaiveInverseProbabilityWeighting()
            kw["pscore"] = g["pscore"]
        else:
            m = O.MultiLoggersBalancedDoublyRobust() if dr else O.MultiLoggersBalancedInverseProbabilityWeighting()
            kw["pscore_avg"] = g["pscore"]
        return est(m, **kw)
    if site in ("kipw", "kdr"):
        kw = dict(action_by_evaluation_policy=g["action_by_evaluation_policy"], action_by_behavior_policy=g["action_by_behavior_policy"], reward=g["reward"], pscore=g["pscore"])
        if site == "kdr":
            kw["estimated_rewards_by_reg_model"] = g["q"]
            m = O.KernelizedDoublyRobust(kernel="gaussian", bandwidth=.8)
        else:
            m = pick(O.KernelizedInverseProbabilityWeighting, O.KernelizedSelfNormalizedInverseProbabilityWeighting)(kernel="gaussian", bandwidth=.8)
        return est(m, **kw)
    if site in ("sips", "iips", "rips", "cdr"):
        sfx = {"sips": "", "iips": "_item_position", "rips": "_cascade", "cdr": "_cascade"}[site]
        kw = {"slate_id": g["slate_id"], "reward": g["reward"], "position": g["position"], "pscore" + sfx: g["pscore"], "evaluation_policy_pscore" + sfx: g["epscore"]}
        if site == "cdr":
            kw.update(action=g["action"], q_hat=g["q"], evaluation_policy_action_dist=g["dist"])
            m = O.SlateCascadeDoublyRobust(len_list=L, n_unique_action=K)
        else:
            m = {"sips": pick(O.SlateStandardIPS, O.SelfNormalizedSlateStandardIPS), "iips": pick(O.SlateIndependentIPS, O.SelfNormalizedSlateIndependentIPS), "rips": pick(O.SlateRewardInteractionIPS, O.SelfNormalizedSlateRewardInteractionIPS)}[site](len_list=L)
        return est(m, **kw)
    done = lambda f: (lambda: (f(), 0.0)[1])
    whole = r.rand() < .5
    if site.startswith("reg"):
        m = O.RegressionModel(base_model=Ridge(), n_actions=K, len_list=L, fitting_method="normal" if site == "reg-normal" else pick("iw", "mrdr"))
        kw = dict(context=g["context"], action=g["action"], reward=g["reward"], position=g["position"])
        if site == "reg-iw":
            kw.update(pscore=g["pscore"], action_dist=g["action_dist"])
        return (done(lambda: m.fit_predict(n_folds=pick(1, 2), random_state=1, **kw)), "RegressionModel.fit_predict") if whole else (done(lambda: m.fit(**kw)), "RegressionModel.fit")
    if site == "iw":
        m = O.ImportanceWeightEstimator(base_model=LogisticRegression(), n_actions=K, len_list=L, calibration_cv=1)
        kw = dict(context=g["context"], action=g["action"], position=g["position"], action_dist=g["action_dist"])
        return (done(lambda: m.fit_predict(random_state=1, **kw)), "ImportanceWeightEstimator.fit_predict") if whole else (done(lambda: m.fit(random_state=1, **kw)), "ImportanceWeightEstimator.fit")
    if site == "ps":
        m = O.PropensityScoreEstimator(base_model=GaussianNB(), n_actions=K, len_list=L, calibration_cv=1)
        kw = dict(context=g["context"], action=g["action"], position=g["position"])
        return (done(lambda: m.fit_predict(random_state=1, **kw)), "PropensityScoreEstimator.fit_predict") if whole else (done(lambda: m.fit(**kw)), "PropensityScoreEstimator.fit")
    if site == "slate-reg":
        m = O.SlateRegressionModel(base_model=Ridge(), len_list=L, n_unique_action=K, fitting_method=pick("normal", "iw"))
        kw = dict(context=g["context"], action=g["action"], reward=g["reward"], pscore_cascade=g["pscore"], evaluation_policy_pscore_cascade=g["epscore"], evaluation_policy_action_dist=g["dist"])
        return (done(lambda: m.fit_predict(**kw)), "SlateRegressionModel.fit_predict") if whole else (done(lambda: m.fit(**kw)), "SlateRegressionModel.fit")
    if site in ("ipw-learner", "q-learner"):
        m = P.IPWLearner(n_actions=K, len_list=L, base_classifier=GaussianNB()) if site == "ipw-learner" else P.QLearner(n_actions=K, len_list=L, base_model=Ridge())
        return done(lambda: m.fit(context=g["context"], action=g["action"], reward=g["reward"], position=g["position"], pscore=g["pscore"])), type(m).__name__ + ".fit"
    if site == "nn-learner":
        m = P.NNPolicyLearner(n_actions=K, dim_context=2, off_policy_objective=pick("ipw", "dr", "dm"), hidden_layer_size=(2,), max_iter=1, random_state=1, q_func_estimator_hyperparams=dict(max_iter=1, hidden_layer_size=(2,)))
        return done(lambda: m.fit(context=g["context"], action=g["action"], reward=g["reward"], pscore=g["pscore"])), "NNPolicyLearner.fit"
    if site == "cnn-learner":
        m = P.ContinuousNNPolicyLearner(dim_context=2, pg_method=pick("ipw", "dr", "dpg"), bandwidth=.5, output_space=(-1, 1), hidden_layer_size=(2,), max_iter=1, random_state=1, q_func_estimator_hyperparams=dict(max_iter=1, hidden_layer_size=(2,)))
        return done(lambda: m.fit(context=g["context"], action=g["action"], reward=g["reward"], pscore=g["pscore"])), "ContinuousNNPolicyLearner.fit"
    if site == "learner-predict":
        n = 8 * K * L
        kw = dict(context=r.randn(n, 2), action=np.arange(n) % K, reward=r.uniform(0, 1, n), position=np.arange(n) // K % L)
        which = pick("ipw", "q", "nn")
        m = {"ipw": lambda: P.IPWLearner(n_actions=K, len_list=L, base_classifier=GaussianNB()), "q": lambda: P.QLearner(n_actions=K, len_list=L, base_model=Ridge()),
             "nn": lambda: P.NNPolicyLearner(n_actions=K, dim_context=2, off_policy_objective="ipw", hidden_layer_size=(2,), max_iter=1, random_state=1)}[which]()
        m.fit(**kw)
        meth = pick("predict", "sample_action") if (L > 1 or which == "q") else pick("predict", "sample_action", "predict_proba")
        extra = dict(random_state=1) if meth == "sample_action" else {}
        return done(lambda: getattr(m, meth)(context=g["context"], **extra)), type(m).__name__ + "." + meth
    cls = pick(P.LinEpsilonGreedy, P.LinUCB, P.LinTS, P.LogisticEpsilonGreedy, P.LogisticUCB, P.LogisticTS)
    m = cls(dim=2, n_actions=K, len_list=min(L, K), random_state=1, **({"epsilon": .01} if "Epsilon" in cls.__name__ else {}))
    if r.rand() < .5:
        for _ in range(3):
            x = r.randn(1, 2)
            m.update_params(action=int(r.randint(K)), reward=1.0, context=x)
    return done(lambda: m.select_action(g["context"])), cls.__name__ + ".select_action"


def run_inputs(case):
    torch.set_num_threads(1)
    r = np.random.RandomState(case["seed"])
    site = case["site"]
    g, K, L = base(site, case["L"], r)
    if site in ARGS:
        g = {k: g[k] for k in ARGS[site].split()}
    h = dict(g)
    for p in case["plan"]:
        h[p["arg"]] = spoil(g, p, K, L, r, site)
    fn, name = call(site, h, K, L, r)
    res = guarded(fn)
    how = "%s with %s" % (name, ", ".join("%s:%s@%s" % (p["arg"], p["d"], p["row"]) for p in case["plan"]) or "nothing spoiled")
    return dict(kind="inputs", site=site, K=K, L=L, g={k: describe(v) for k, v in h.items()}, one=len(case["plan"]) < 2, fine=case["fine"], ok=res[0] == "ok", finite=res[0] == "ok" and finite(res[1]),
                how=how + ("" if res[0] == "ok" else " (%s: %s)" % (res[1], res[2][:120])))


# ------------------------------------------------------------------- parameters
def make(cls, **kw):
    b = dict(BASE[cls][1])
    for k, v in kw.items():
        b[k] = v
    return BASE[cls][0](**b)


X60 = np.random.RandomState(0).randn(30, 2)
nn = dict(hidden_layer_size=(2,), max_iter=1)
lam = dict(InverseProbabilityWeighting={}, DoublyRobust={}, SwitchDoublyRobust={}, DoublyRobustWithShrinkage={}, SubGaussianInverseProbabilityWeighting={}, SubGaussianDoublyRobust={}, BalancedInverseProbabilityWeighting={},
           MultiLoggersNaiveInverseProbabilityWeighting={}, MultiLoggersWeightedInverseProbabilityWeighting={}, MultiLoggersBalancedInverseProbabilityWeighting={}, MultiLoggersNaiveDoublyRobust={},
           MultiLoggersWeightedDoublyRobust={}, MultiLoggersBalancedDoublyRobust={})
BASE = {k: (getattr(O, k), v) for k, v in lam.items()}
BASE.update({k: (getattr(O, k), dict(lambdas=[.5])) for k in ("InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning", "SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning")})
BASE.update({k: (getattr(O, k), dict(kernel="gaussian", bandwidth=.5)) for k in ("KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust")})
BASE.update({k: (getattr(O, k), dict(n_actions=3)) for k in ("MarginalizedInverseProbabilityWeighting", "SelfNormalizedMarginalizedInverseProbabilityWeighting")})
BASE.update({k: (getattr(O, k), dict(n_actions=3, base_model=LogisticRegression())) for k in ("RegressionModel", "ImportanceWeightEstimator", "PropensityScoreEstimator")})
BASE["SlateRegressionModel"] = (O.SlateRegressionModel, dict(base_model=Ridge(), len_list=2, n_unique_action=3))
BASE["SlateCascadeDoublyRobust"] = (O.SlateCascadeDoublyRobust, dict(len_list=2, n_unique_action=3))
BASE.update({k: (getattr(P, k), dict(n_actions=3)) for k in ("EpsilonGreedy", "Random", "BernoulliTS", "IPWLearner", "QLearner")})
BASE["QLearner"] = (P.QLearner, dict(n_actions=3, base_model=Ridge()))
BASE.update({k: (getattr(P, k), dict(dim=2, n_actions=3)) for k in ("LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS")})
BASE["NNPolicyLearner"] = (P.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective="ipw", **nn))
BASE["ContinuousNNPolicyLearner"] = (P.ContinuousNNPolicyLearner, dict(dim_context=2, pg_method="ipw", bandwidth=.5, **nn))
BASE["QFuncEstimator"] = (QFuncEstimator, dict(n_actions=3, dim_context=2, **nn))
BASE["QFuncEstimatorForContinuousAction"] = (QFuncEstimatorForContinuousAction, dict(dim_context=2, **nn))
BASE["SyntheticBanditDataset"] = (D.SyntheticBanditDataset, dict(n_actions=3))
BASE["SyntheticMultiLoggersBanditDataset"] = (D.SyntheticMultiLoggersBanditDataset, dict(n_actions=3, betas=[1.0], rhos=[1.0]))
BASE["SyntheticBanditDatasetWithActionEmbeds"] = (D.SyntheticBanditDatasetWithActionEmbeds, dict(n_actions=3))
BASE["SyntheticContinuousBanditDataset"] = (D.SyntheticContinuousBanditDataset, dict())
BASE["SyntheticSlateBanditDataset"] = (D.SyntheticSlateBanditDataset, dict(n_unique_action=4, len_list=2, click_model="pbm"))
BASE["MultiClassToBanditReduction"] = (D.MultiClassToBanditReduction, dict(X=X60, y=np.arange(30) % 3, base_classifier_b=GaussianNB()))
BASE["BanditEnvironmentSimulator"] = (BanditEnvironmentSimulator, dict(n_actions=3))


def value(tag, x):
    return {"int": lambda: int(num(x)), "float": lambda: float(num(x)), "str": lambda: "1", "none": lambda: None, "list": lambda: [1]}[tag]()


def run_params(case):
    p, v = case["p"], value(case["v"]["tag"], case["v"]["x"])
    if p["name"] == "lambdas":
        v = [.25, v]
    res = guarded(lambda: make(case["cls"], **{p["name"]: v}) and None)
    return dict(kind="params", cls=case["cls"], p=p, v=case["v"], ok=res[0] == "ok", how="%s=%r" % (p["name"], v) + ("" if res[0] == "ok" else " (%s: %s)" % (res[1], res[2][:120])))


def run_choices(case):
    v = case["c"]
    v = None if v == "none" else True if v == "true" else 1 if v == "one" else v
    res = guarded(lambda: make(case["cls"], **dict({case["p"]: v}, **({} if case["p"] == "click_model" or case["cls"] != "SyntheticSlateBanditDataset" else dict(click_model=None)))) and None)
    return dict(kind="choices", cls=case["cls"], p=case["p"], valid=case["valid"], ok=res[0] == "ok", how="%s=%r" % (case["p"], v))


def run(case):
    return {"inputs": run_inputs, "params": run_params, "choices": run_choices}[case["kind"]](case)
