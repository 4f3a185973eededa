"""Reproducibility and untouched inputs: each actor below is the life of one seeded component (a fixed
sequence of public calls).  One life runs alone; two more are interleaved as TLC's schedules of
spec/MC_Repro say, with strangers and disturbances of the process-wide random state in between."""
import zlib
import dataclasses, hashlib, os, random, warnings
import numpy as np
import pandas as pd
import torch
from sklearn.base import BaseEstimator
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.ensemble import RandomForestClassifier
from sklearn.tree import DecisionTreeRegressor
import obp.dataset as D
import obp.ope as O
import obp.policy as P
import obp.utils as U
from obp.dataset.reward_type import RewardType
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction
from obp.policy.linear import LinEpsilonGreedy
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator, calc_ground_truth_policy_value
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.replay import run_bandit_replay
import ope, slate
from common import num

PID, CHECKER = "C24", "CheckC24"
ASSUMPTIONS = ["components are built with a seed (random_state); those left unseeded may differ from run to run",
               "base models and user-supplied functions are themselves deterministic given their own seed",
               "results are the same when they agree to 1e-9 relative (floating-point kernels may order sums by memory alignment)",
               "policies and models handed to a call whose job is to train them are not inputs that must stay untouched"]


# ------------------------------------------------------------------ digests
def leaves(x, path="", seen=None):
    """Flat (path, leaf) list of everything a value holds; opaque objects contribute their type only."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            yield path, ("objs", x.shape)
            for i, v in enumerate(x.reshape(-1)):
                yield from leaves(v, "%s[%d]" % (path, i))
        else:
            yield path, x
    elif isinstance(x, (pd.DataFrame, pd.Series)):
        yield path + ".index", str(list(x.index))
        if isinstance(x, pd.DataFrame):
            for c in x.columns:
                yield from leaves(x[c].to_numpy(), "%s.%s" % (path, c))
        else:
            yield path, x.to_numpy()
    elif isinstance(x, dict):
        yield path, "dict:%s" % sorted(map(str, x))
        for k in sorted(x, key=str):
            yield from leaves(x[k], "%s[%r]" % (path, k))
    elif isinstance(x, (list, tuple)):
        yield path, "%s:%d" % (type(x).__name__, len(x))
        for i, v in enumerate(x):
            yield from leaves(v, "%s[%d]" % (path, i))
    elif isinstance(x, torch.Tensor):
        yield path, x.detach().numpy()
    elif isinstance(x, (bool, int, float, np.generic)):
        yield path, np.asarray(x)
    elif isinstance(x, (str, bytes, type(None))):
        yield path, repr(x)
    elif isinstance(x, BaseEstimator):
        yield from leaves({k: v for k, v in x.get_params(deep=False).items() if not isinstance(v, BaseEstimator)}, path + ".params")
    elif dataclasses.is_dataclass(x) and type(x).__name__ in ("BanditRound", "BanditRounds"):
        yield from leaves({f.name: getattr(x, f.name) for f in dataclasses.fields(x)}, path)
    else:
        yield path, "<%s>" % type(x).__name__


def digest(x):
    """path -> digest of the leaf."""
    out = {}
    for p, v in leaves(x):
        if isinstance(v, np.ndarray):
            v = "%s%s:%s" % (v.dtype, v.shape, hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest())
        out[p] = str(v)
    return out


def copied(x):
    return [(p, v.copy() if isinstance(v, np.ndarray) else str(v)) for p, v in leaves(x)]


def same(a, b):
    if len(a) != len(b):
        return False
    for (p, v), (r, w) in zip(a, b):
        if p != r or type(v) is not type(w):
            return False
        if isinstance(v, str):
            if v != w:
                return False
        elif v.shape != w.shape or v.dtype != w.dtype:
            return False
        elif v.dtype.kind == "f":
            if not np.allclose(v, w, rtol=1e-9, atol=1e-12, equal_nan=True):
                return False
        elif not np.array_equal(v, w):
            return False
    return True


class Dead(Exception):
    pass


class Stage:
    """Collects the calls of all lives; results are numbered by equality."""
    def __init__(self):
        self.events, self.pool = [], {}

    def result_id(self, key, res):
        c = copied(res)
        ids = self.pool.setdefault(key, [])
        for i, d in enumerate(ids):
            if same(c, d):
                return i
        ids.append(c)
        return len(ids) - 1


class Life:
    def __init__(self, stage, n, kind, seed, actor, record=True):
        self.stage, self.n, self.kind, self.seed, self.record = stage, n, kind, seed, record
        self.data, self.results, self.k = [], [], 0
        self.gen = actor(seed, self)
        self.done = False

    def step(self):
        if not self.done:
            try:
                next(self.gen)
            except StopIteration:
                self.done = True
            except Dead:
                self.done = True

    def __call__(self, name, fn, *args, **kw):
        mine = {"%s.%s" % (name, i): v for i, v in list(enumerate(args)) + list(kw.items())}
        self.data.append(mine)
        before = digest(self.data)
        held = [digest(r) for r in self.results]
        res, fail = None, ""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = fn(*args, **kw)
        except Exception as e:
            fail = "%s: %s" % (type(e).__name__, str(e)[:200])
        after = digest(self.data)
        kept = [digest(r) for r in self.results] == held
        what = next((p for p in before if before[p] != after.get(p)), "") or ("" if len(after) == len(before) else "structure")
        if self.record:
            rid = self.stage.result_id((self.kind, self.k), res)
            h = lambda d: hashlib.sha1(repr(sorted(d.items())).encode()).hexdigest()[:16]
            self.stage.events.append(dict(life=self.n, kind=self.kind, seed=self.seed, k=self.k, name=name, result="r%d" % rid,
                                          before=h(before), after=h(after), what=what, held=kept, fail=fail))
        self.k += 1
        if fail:
            raise Dead()
        self.results.append(res)
        if len(self.results) > 12:
            self.results.pop(0)
        return res


def noise(rng):
    np.random.seed(rng.randrange(2**31))
    np.random.rand(rng.randrange(1, 5))
    random.seed(rng.randrange(2**31))
    torch.manual_seed(rng.randrange(2**31))
    torch.rand(rng.randrange(1, 5))


# ------------------------------------------------------------------- actors
def R(seed):
    return np.random.RandomState(seed)


def soft(rng, n, k, l=1):
    e = rng.uniform(.1, 1, (n, k, l))
    return e / e.sum(1, keepdims=True)


def pick(seed, salt, k):
    """One of k options, drawn independently for every salt (so that options combine freely)."""
    return zlib.crc32(b"%d/%d" % (seed, salt)) // 7 % k


def synth(seed, S):
    r = R(seed)
    kw = dict(n_actions=3, dim_context=2, reward_type=["binary", "continuous"][pick(seed, 1, 2)], reward_std=.7, beta=[1.0, 0.0, -2.0][pick(seed, 2, 3)], n_deficient_actions=pick(seed, 3, 2), random_state=seed)
    kw["reward_function"] = [None, D.logistic_reward_function, D.linear_reward_function, D.logistic_polynomial_reward_function, D.polynomial_reward_function, D.sparse_reward_function, D.logistic_sparse_reward_function][pick(seed, 4, 7)]
    if kw["reward_function"] is not None:
        kw["reward_type"] = "binary" if kw["reward_function"].__name__.startswith("logistic") else "continuous"
    kw["behavior_policy_function"] = [None, D.linear_behavior_policy, D.polynomial_behavior_policy][pick(seed, 5, 3)]
    if pick(seed, 6, 4) == 1:
        kw["action_context"] = r.randn(3, 2)
    d = S("make", lambda **k: D.SyntheticBanditDataset(**k), **kw)
    yield
    for n in (5, 3):
        f = S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, n_rounds=n)
        yield
    S("calc_ground_truth_policy_value", d.calc_ground_truth_policy_value, expected_reward=f["expected_reward"], action_dist=soft(r, 3, 3))
    S("sample_reward", d.sample_reward, context=f["context"], action=f["action"])


def multilog(seed, S):
    r = R(seed)
    kw = dict(n_actions=3, dim_context=2, betas=[-1.0, 0.0, 2.0][: 1 + pick(seed, 7, 3)], rhos=[.2, .5, .3][: 1 + pick(seed, 7, 3)], n_deficient_actions=pick(seed, 9, 2), random_state=seed)
    d = S("make", lambda **k: D.SyntheticMultiLoggersBanditDataset(**k), **kw)
    yield
    for n in (12, 9):
        S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, n_rounds=n)
        yield


def embeds(seed, S):
    kw = dict(n_actions=4, dim_context=2, n_cat_per_dim=3, n_cat_dim=3, latent_param_mat_dim=2, n_unobserved_cat_dim=pick(seed, 10, 2), n_irrelevant_cat_dim=pick(seed, 11, 2), beta=1.0, random_state=seed,
              reward_type=["binary", "continuous"][pick(seed, 12, 2)], reward_function=[D.logistic_reward_function, D.linear_reward_function][pick(seed, 12, 2)])
    d = S("make", lambda **k: D.SyntheticBanditDatasetWithActionEmbeds(**k), **kw)
    yield
    for n in (6, 4):
        f = S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, n_rounds=n)
        yield
    S("calc_ground_truth_policy_value", d.calc_ground_truth_policy_value, expected_reward=f["expected_reward"], action_dist=soft(R(seed), 4, 4))


def contds(seed, S):
    kw = dict(dim_context=2, action_noise=.8, reward_noise=.5, min_action_value=-2.0, max_action_value=2.0, random_state=seed,
              reward_function=[D.linear_reward_funcion_continuous, D.quadratic_reward_funcion_continuous][pick(seed, 14, 2)], behavior_policy_function=[None, D.linear_behavior_policy_continuous][pick(seed, 15, 2)])
    d = S("make", lambda **k: D.SyntheticContinuousBanditDataset(**k), **kw)
    yield
    for n in (6, 4):
        f = S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, n_rounds=n)
        yield
    for fn in (D.linear_synthetic_policy_continuous, D.threshold_synthetic_policy_continuous, D.sign_synthetic_policy_continuous):
        a = S(fn.__name__, fn, f["context"])
    S("calc_ground_truth_policy_value", d.calc_ground_truth_policy_value, context=f["context"], action=np.clip(a, -2, 2))


def slateds(seed, S):
    r = R(seed)
    cont = pick(seed, 16, 2)
    structs = ["independent", "cascade_additive", "cascade_decay", "standard_additive", "standard_decay"]
    kw = dict(n_unique_action=4, len_list=2, dim_context=2, reward_type=["binary", "continuous"][cont], reward_structure=structs[pick(seed, 17, 5)],
              click_model=None if cont else [None, "cascade", "pbm"][pick(seed, 18, 3)], is_factorizable=bool(pick(seed, 19, 2)), random_state=seed,
              base_reward_function=[D.logistic_reward_function, D.linear_reward_function][cont], behavior_policy_function=[None, D.linear_behavior_policy_logit][pick(seed, 20, 2)])
    d = S("make", lambda **k: D.SyntheticSlateBanditDataset(**k), **kw)
    yield
    for n in (4, 3):
        f = S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, n_rounds=n)
        yield
    lo = r.randn(3, 4)
    S("obtain_pscore_given_evaluation_policy_logit", d.obtain_pscore_given_evaluation_policy_logit, action=f["action"], evaluation_policy_logit_=lo)
    S("calc_ground_truth_policy_value", d.calc_ground_truth_policy_value, evaluation_policy_logit_=lo, context=f["context"])
    for pt in ("random", "optimal", "anti-optimal"):
        ac = S("generate_evaluation_policy_pscore", d.generate_evaluation_policy_pscore, evaluation_policy_type=pt, context=f["context"], action=f["action"])
    S("calc_evaluation_policy_action_dist", d.calc_evaluation_policy_action_dist, action=f["action"], evaluation_policy_logit_=lo)


def multiclass(seed, S):
    r = R(seed)
    X, y = r.randn(60, 3), np.arange(60) % 3
    base = RandomForestClassifier(n_estimators=3, random_state=seed)
    d = S("make", lambda **k: D.MultiClassToBanditReduction(**k), X=X, y=y, base_classifier_b=base, alpha_b=.7, n_deficient_actions=pick(seed, 21, 2))
    S("split_train_eval", d.split_train_eval, eval_size=.4, random_state=seed)
    yield
    for i in range(2):
        f = S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, random_state=seed + i)
        yield
    e = S("obtain_action_dist_by_eval_policy", d.obtain_action_dist_by_eval_policy, base_classifier_e=LogisticRegression(C=3.0, random_state=1), alpha_e=.9)
    S("calc_ground_truth_policy_value", d.calc_ground_truth_policy_value, action_dist=e)


def openbandit(seed, S):
    key = (["random", "bts"][pick(seed, 22, 2)], ["men", "women"][pick(seed, 23, 2)])
    d = S("make", lambda b, c: D.OpenBanditDataset(behavior_policy=b, campaign=c), *key)
    yield
    f = S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback, test_size=.3, is_timeseries_split=bool(pick(seed, 24, 2)))
    for i in range(2):
        f = S("sample_bootstrap_bandit_feedback", d.sample_bootstrap_bandit_feedback, sample_size=50 + i, random_state=seed + i)
        yield
    S("obtain_batch_bandit_feedback", d.obtain_batch_bandit_feedback)


def log_single(seed, n=12, K=3, L=2):
    rng = random.Random(seed)
    return ope.random_log(rng, n=n, n_actions=K, len_list=L)


def single(seed, S):
    A = ope.arrays(log_single(seed))
    for j, e in enumerate(sorted(ope.CLS)):
        m = ope.make(e, ("1/4" if e.startswith("sg") else "3") if e in ope.HAS_LAM else None)
        kw = ope.inputs(e, A)
        S(e + ".estimate_policy_value", m.estimate_policy_value, **kw)
        S(e + ".estimate_interval", m.estimate_interval, n_bootstrap_samples=7, random_state=seed, **kw)
        if j % 3 == 2:
            yield


def tuned(seed, S):
    A = ope.arrays(log_single(seed, L=1))
    r = R(seed)
    for j, (cls, e) in enumerate([(O.InverseProbabilityWeightingTuning, "ipw"), (O.SubGaussianInverseProbabilityWeightingTuning, "sg-ipw"), (O.DoublyRobustTuning, "dr"), (O.SwitchDoublyRobustTuning, "switch-dr"),
                   (O.DoublyRobustWithShrinkageTuning, "dr-os"), (O.SubGaussianDoublyRobustTuning, "sg-dr")]):
        lam = [float(v) for v in r.permutation([.2, .9, .5])] if "Sub" in cls.__name__ else [float(v) for v in r.permutation([5., 1., 20.])]
        m = S(e + ".make", lambda **k: cls(**k), lambdas=lam, tuning_method=["slope", "mse"][(seed + j) % 2])
        kw = ope.inputs(e, A)
        S(e + "-tuning.estimate_policy_value", m.estimate_policy_value, **kw)
        S(e + "-tuning.estimate_interval", m.estimate_interval, n_bootstrap_samples=7, random_state=seed, **kw)
        if e == "dr":
            S(e + "-tuning.estimate_policy_value_with_dev", getattr(m, "estimate_policy_value_with_dev", m.estimate_policy_value), **kw)
        yield


def continuous(seed, S):
    r = R(seed)
    n = 9
    kw = dict(action_by_evaluation_policy=r.randn(n), action_by_behavior_policy=r.randn(n), reward=r.randn(n), pscore=r.uniform(.1, 2, n))
    for j, cls in enumerate([O.KernelizedInverseProbabilityWeighting, O.KernelizedSelfNormalizedInverseProbabilityWeighting, O.KernelizedDoublyRobust]):
        m = cls(kernel=["gaussian", "epanechnikov", "triangular", "cosine"][(seed + j) % 4], bandwidth=.6)
        k2 = dict(kw, estimated_rewards_by_reg_model=r.randn(n)) if j == 2 else kw
        S(cls.__name__ + ".estimate_policy_value", m.estimate_policy_value, **k2)
        S(cls.__name__ + ".estimate_interval", m.estimate_interval, n_bootstrap_samples=7, random_state=seed, **k2)
        yield
    bf = dict(n_rounds=n, action=kw["action_by_behavior_policy"], reward=kw["reward"], pscore=kw["pscore"], position=None)
    M = O.ContinuousOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=[O.KernelizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=.5), O.KernelizedDoublyRobust(kernel="cosine", bandwidth=.5)])
    a = dict(action_by_evaluation_policy=kw["action_by_evaluation_policy"], estimated_rewards_by_reg_model={"kernelized_dr": r.randn(n), "kernelized_ipw": r.randn(n)})
    S("meta.estimate_policy_values", M.estimate_policy_values, **a)
    S("meta.estimate_intervals", M.estimate_intervals, n_bootstrap_samples=6, random_state=seed, **a)
    S("meta.summarize", M.summarize_off_policy_estimates, n_bootstrap_samples=6, random_state=seed, **a)
    S("meta.evaluate", M.evaluate_performance_of_estimators, ground_truth_policy_value=.4, metric="se", **a)


def multi(seed, S):
    A = ope.arrays(log_single(seed, L=1))
    r = R(seed)
    n = len(A["reward"])
    st = np.arange(n) % 2
    avg = r.uniform(.1, 1, n)
    es = []
    for j, cls in enumerate([O.MultiLoggersNaiveInverseProbabilityWeighting, O.MultiLoggersWeightedInverseProbabilityWeighting, O.MultiLoggersBalancedInverseProbabilityWeighting, O.MultiLoggersNaiveDoublyRobust, O.MultiLoggersWeightedDoublyRobust, O.MultiLoggersBalancedDoublyRobust]):
        m = cls(lambda_=4.0)
        es.append(m)
        kw = dict(reward=A["reward"], action=A["action"], action_dist=A["action_dist"], position=A["position"])
        if "Weighted" in cls.__name__:
            kw["stratum_idx"] = st
        kw["pscore_avg" if "Balanced" in cls.__name__ else "pscore"] = avg if "Balanced" in cls.__name__ else A["pscore"]
        if j > 2:
            kw["estimated_rewards_by_reg_model"] = A["estimated_rewards_by_reg_model"]
        S(cls.__name__ + ".estimate_policy_value", m.estimate_policy_value, **kw)
        S(cls.__name__ + ".estimate_interval", m.estimate_interval, n_bootstrap_samples=7, random_state=seed, **kw)
        if j % 2:
            yield
    bf = dict(n_rounds=n, n_strata=2, action=A["action"], reward=A["reward"], pscore=A["pscore"], pscore_avg=avg, stratum_idx=st, position=A["position"])
    M = O.MultiLoggersOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=es)
    a = dict(action_dist=A["action_dist"], estimated_rewards_by_reg_model=A["estimated_rewards_by_reg_model"])
    S("meta.estimate_policy_values", M.estimate_policy_values, **a)
    S("meta.estimate_intervals", M.estimate_intervals, n_bootstrap_samples=6, random_state=seed, **a)
    S("meta.summarize", M.summarize_off_policy_estimates, n_bootstrap_samples=6, random_state=seed, **a)
    S("meta.evaluate", M.evaluate_performance_of_estimators, ground_truth_policy_value=.4, **a)
    S("meta.bf", lambda b: None, bf)


def slates(seed, S):
    rows, L, K = slate.random_log(random.Random(seed), n=4, L=2, K=3, ragged=False, shuffle=False)
    A = slate.arrays(rows)
    for j, e in enumerate(sorted(slate.CLS)):
        m = slate.make(e, L, K)
        kw = slate.inputs(e, A)
        S(e + ".estimate_policy_value", m.estimate_policy_value, **kw)
        S(e + ".estimate_interval", m.estimate_interval, n_bootstrap_samples=7, random_state=seed, **kw)
        if j % 3 == 2:
            yield
    bf = dict(n_rounds=4, context=R(seed).randn(4, 2), slate_id=A["slate_id"], action=A["action"], reward=A["reward"], position=A["position"], pscore=A["pscore"], pscore_item_position=A["pscore_item_position"], pscore_cascade=A["pscore_cascade"])
    M = S("meta.make", lambda b, e: O.SlateOffPolicyEvaluation(bandit_feedback=b, ope_estimators=e), bf, [slate.make(e, L, K) for e in ("sips", "iips", "rips", "cascade-dr")])
    a = dict(evaluation_policy_pscore=A["evaluation_policy_pscore"], evaluation_policy_pscore_item_position=A["evaluation_policy_pscore_item_position"], evaluation_policy_pscore_cascade=A["evaluation_policy_pscore_cascade"],
             evaluation_policy_action_dist=A["evaluation_policy_action_dist"], q_hat=A["q_hat"])
    S("meta.estimate_policy_values", M.estimate_policy_values, **a)
    S("meta.estimate_intervals", M.estimate_intervals, n_bootstrap_samples=6, random_state=seed, **a)
    S("meta.summarize", M.summarize_off_policy_estimates, n_bootstrap_samples=6, random_state=seed, **a)


def mips(seed, S):
    r = R(seed)
    n, K = 24, 3
    act = np.arange(n) % K
    kw = dict(reward=r.randn(n), action=act, action_embed=r.randint(2, size=(n, 3)), context=r.randn(n, 2), pscore=r.uniform(.1, 1, n), action_dist=soft(r, n, K))
    kw["pi_b"] = soft(r, n, K)
    for j, cls in enumerate([O.MarginalizedInverseProbabilityWeighting, O.SelfNormalizedMarginalizedInverseProbabilityWeighting]):
        m = S("make", lambda **k: cls(**k), n_actions=K, embedding_selection_method=[None, "exact", "greedy"][(seed + j) % 3], pi_a_x_e_estimator=RandomForestClassifier(n_estimators=3, random_state=seed))
        S(cls.__name__ + ".estimate_policy_value", m.estimate_policy_value, **kw)
        yield
        S(cls.__name__ + ".estimate_interval", m.estimate_interval, n_bootstrap_samples=6, random_state=seed, **kw)


def meta(seed, S):
    A = ope.arrays(log_single(seed))
    n = len(A["reward"])
    bf = dict(n_rounds=n, context=R(seed).randn(n, 2), action=A["action"], reward=A["reward"], pscore=A["pscore"], position=A["position"])
    es = [ope.make(e, ("1/4" if e.startswith("sg") else "3") if e in ope.HAS_LAM else None) for e in ("rm", "ipw", "snipw", "dm", "dr", "sndr", "switch-dr", "dr-os", "sg-ipw", "sg-dr")]
    M = S("make", lambda b, e: O.OffPolicyEvaluation(bandit_feedback=b, ope_estimators=e), bf, es)
    qh = A["estimated_rewards_by_reg_model"]
    a = dict(action_dist=A["action_dist"], estimated_rewards_by_reg_model={e.estimator_name: qh + i for i, e in enumerate(es)} if pick(seed, 25, 2) else qh)
    S("estimate_policy_values", M.estimate_policy_values, **a)
    yield
    S("estimate_intervals", M.estimate_intervals, n_bootstrap_samples=6, random_state=seed, **a)
    S("summarize", M.summarize_off_policy_estimates, n_bootstrap_samples=6, random_state=seed, **a)
    yield
    S("evaluate", M.evaluate_performance_of_estimators, ground_truth_policy_value=.4, metric=["relative-ee", "se"][pick(seed, 26, 2)], **a)
    S("compare", M.summarize_estimators_comparison, ground_truth_policy_value=.4, **a)
    pols = [A["action_dist"], A["action_dist"][:, ::-1].copy()]
    S("estimate_policy_values", M.estimate_policy_values, action_dist=pols[1], estimated_rewards_by_reg_model=a["estimated_rewards_by_reg_model"])


def regression(seed, S):
    r = R(seed)
    n, K, L = 72, 3, 2
    kw = dict(context=r.randn(n, 2), action=np.arange(n) % K, reward=r.randint(2, size=n), pscore=r.uniform(.1, 1, n), position=np.arange(n) // K % L, action_dist=soft(r, n, K, L))
    fm = ["normal", "iw", "mrdr"][pick(seed, 27, 3)]
    base = [LogisticRegression(C=2.0, random_state=1), RandomForestClassifier(n_estimators=2, random_state=seed), DecisionTreeRegressor(max_depth=3, random_state=0)][pick(seed, 28, 3)]
    m = S("make", lambda **k: O.RegressionModel(**k), base_model=base, n_actions=K, len_list=L, action_context=r.randn(K, 2), fitting_method=fm)
    for i, folds in enumerate((3, 1, 2)):
        S("fit_predict", m.fit_predict, n_folds=folds, random_state=seed + i, **kw)
        yield
    S("fit", m.fit, **kw)
    S("predict", m.predict, context=kw["context"][:5])


def classification(seed, S):
    r = R(seed)
    n, K, L = 150, 3, 2
    kw = dict(context=r.randn(n, 2), action=np.arange(n) % K, position=np.arange(n) // K % L)
    pi = soft(r, n, K, L)
    cv = [1, 2][pick(seed, 29, 2)]
    base = RandomForestClassifier(n_estimators=3, random_state=seed)
    w = S("iw.make", lambda **k: O.ImportanceWeightEstimator(**k), base_model=base, n_actions=K, len_list=L, action_context=r.randn(K, 2), fitting_method=["sample", "raw"][pick(seed, 30, 2)], calibration_cv=cv)
    p = S("ps.make", lambda **k: O.PropensityScoreEstimator(**k), base_model=base, n_actions=K, len_list=L, calibration_cv=cv)
    for i, folds in enumerate((2, 1)):
        S("iw.fit_predict", w.fit_predict, action_dist=pi, n_folds=folds, random_state=seed + i, evaluate_model_performance=bool(i == 0), **kw)
        S("ps.fit_predict", p.fit_predict, n_folds=folds, random_state=seed + i, evaluate_model_performance=bool(i == 0), **kw)
        yield


def slate_regression(seed, S):
    r = R(seed)
    n, L, K = 8, 2, 3
    d = soft(r, n * L, K)[:, :, 0].reshape(-1)
    kw = dict(context=r.randn(n, 2), action=r.randint(K, size=n * L), reward=r.randn(n * L), pscore_cascade=r.uniform(.1, 1, n * L), evaluation_policy_pscore_cascade=r.uniform(.1, 1, n * L), evaluation_policy_action_dist=d)
    for fm in ("normal", "iw"):
        m = S("make", lambda **k: O.SlateRegressionModel(**k), base_model=DecisionTreeRegressor(max_depth=3, random_state=seed), len_list=L, n_unique_action=K, fitting_method=fm)
        S("fit_predict", m.fit_predict, **kw)
        yield
        S("predict", m.predict, context=kw["context"], action=kw["action"])


def contextfree(seed, S):
    K, L = 3, 1 + pick(seed, 31, 2)
    cls = [P.EpsilonGreedy, P.Random, P.BernoulliTS][pick(seed, 32, 3)]
    kw = dict(n_actions=K, len_list=L, batch_size=1 + pick(seed, 33, 2), random_state=seed)
    if cls is P.EpsilonGreedy:
        kw["epsilon"] = .5
    if cls is P.BernoulliTS and pick(seed, 34, 2):
        kw.update(alpha=np.array([1., 2., 3.]), beta=np.array([3., 1., 2.]))
    m = S("make", lambda **k: cls(**k), **kw)
    for t in range(9):
        a = S("select_action", m.select_action)
        S("update_params", m.update_params, action=int(a[0]), reward=float((t * 7 + seed) % 2))
        if t % 3 == 2:
            yield
    if cls is P.BernoulliTS:
        S("compute_batch_action_dist", m.compute_batch_action_dist, n_rounds=3, n_sim=20)
    if hasattr(m, "initialize"):
        S("initialize", m.initialize)
        S("select_action", m.select_action)


def contextual(seed, S):
    K, L, d = 3, 1 + pick(seed, 35, 2), 2
    cls = [P.LinEpsilonGreedy, P.LinUCB, P.LinTS, P.LogisticEpsilonGreedy, P.LogisticUCB, P.LogisticTS][pick(seed, 36, 6)]
    kw = dict(dim=d, n_actions=K, len_list=L, batch_size=1 + pick(seed, 37, 2), random_state=seed)
    if "TS" not in cls.__name__:
        kw["epsilon"] = .4
    m = S("make", lambda **k: cls(**k), **kw)
    r = R(seed)
    for t in range(9):
        x = r.randn(1, d)
        a = S("select_action", m.select_action, x)
        S("update_params", m.update_params, action=int(a[0]), reward=float((t * 5 + seed) % 2), context=x)
        if t % 3 == 2:
            yield
    S("initialize", m.initialize)
    S("select_action", m.select_action, x)


def learners(seed, S):
    r = R(seed)
    n, K, L = 30, 3, 1 + pick(seed, 38, 2)
    kw = dict(context=r.randn(n, 2), action=np.arange(n) % K, reward=r.uniform(0, 1, n), pscore=r.uniform(.1, 1, n), position=np.arange(n) // K % L)
    if pick(seed, 39, 2):
        m = S("make", lambda **k: P.IPWLearner(**k), n_actions=K, len_list=L, base_classifier=RandomForestClassifier(n_estimators=3, random_state=seed))
    else:
        m = S("make", lambda **k: P.QLearner(**k), n_actions=K, len_list=L, base_model=DecisionTreeRegressor(max_depth=3, random_state=seed), fitting_method=["normal", "iw", "mrdr"][pick(seed, 40, 3)])
    for i in range(2):
        S("fit", lambda **k: m.fit(**k) and None, **kw)
        yield
        x = r.randn(4, 2)
        S("predict", m.predict, context=x)
        S("predict_score", m.predict_score, context=x)
        S("sample_action", m.sample_action, context=x, tau=.5, random_state=seed)
        if L == 1:
            S("predict_proba", m.predict_proba, context=x)
        yield


def nnl(seed, S):
    r = R(seed)
    n, K = 24, 3
    kw = dict(context=r.randn(n, 2), action=np.arange(n) % K, reward=r.uniform(0, 1, n), pscore=r.uniform(.1, 1, n))
    hp = dict(max_iter=2, hidden_layer_size=(3,))
    m = S("make", lambda **k: P.NNPolicyLearner(**k), n_actions=K, dim_context=2, off_policy_objective=["ipw", "dm", "dr", "snipw", "ipw-os", "ipw-subgauss"][pick(seed, 41, 6)], hidden_layer_size=(4,), max_iter=3, batch_size=8, learning_rate_init=.05,
          solver=["adam", "sgd", "adagrad"][pick(seed, 42, 3)], shuffle=bool(pick(seed, 43, 5)), early_stopping=bool(pick(seed, 44, 2)), validation_fraction=.25, random_state=seed, q_func_estimator_hyperparams=hp)
    for i in range(2):
        S("fit", lambda **k: m.fit(**k) and None, **kw)
        yield
        x = r.randn(4, 2)
        S("predict", m.predict, context=x)
        S("predict_proba", m.predict_proba, context=x)
        S("sample_action", m.sample_action, context=x, tau=.5, random_state=seed)
        yield


def cnnl(seed, S):
    r = R(seed)
    n = 24
    kw = dict(context=r.randn(n, 2), action=r.randn(n), reward=r.uniform(0, 1, n), pscore=r.uniform(.1, 1, n))
    hp = dict(max_iter=2, hidden_layer_size=(3,))
    m = S("make", lambda **k: P.ContinuousNNPolicyLearner(**k), dim_context=2, pg_method=["dpg", "ipw", "dr"][pick(seed, 45, 3)], bandwidth=.5, output_space=(-2, 2), hidden_layer_size=(4,), max_iter=3, batch_size=8, learning_rate_init=.05,
          solver=["adam", "sgd", "adagrad"][pick(seed, 46, 3)], shuffle=bool(pick(seed, 47, 5)), early_stopping=bool(pick(seed, 48, 2)), validation_fraction=.25, random_state=seed, q_func_estimator_hyperparams=hp)
    for i in range(2):
        S("fit", lambda **k: m.fit(**k) and None, **kw)
        yield
        x = r.randn(4, 2)
        S("predict", m.predict, context=x)
        yield


def qfunc(seed, S):
    r = R(seed)
    n, K = 24, 3
    cont, t = pick(seed, 49, 2), lambda v: torch.from_numpy(v).float()
    o = dict(dim_context=2, hidden_layer_size=(4,), max_iter=3, batch_size=8, learning_rate_init=.05, early_stopping=bool(pick(seed, 50, 2)), validation_fraction=.25, random_state=seed)
    m = S("make", lambda **k: QFuncEstimatorForContinuousAction(**k) if cont else QFuncEstimator(n_actions=K, **k), **o)
    a = dict(context=r.randn(n, 2), action=r.randn(n) if cont else np.arange(n) % K, reward=r.uniform(0, 1, n))
    for i in range(2):
        S("fit", lambda **k: m.fit(**k) and None, **a)
        yield
        if cont:
            S("predict", m.predict, context=t(a["context"][:4]), action=t(a["action"][:4]))
        else:
            S("predict", m.predict, context=t(a["context"][:4]))
        yield


def environment(seed, S):
    r = R(seed)
    K = 3
    kw = dict(n_actions=K, dim_context=2, random_state=seed)
    if pick(seed, 51, 3):
        kw["reward_function"] = D.logistic_reward_function
    if pick(seed, 52, 2):
        dl = ExponentialDelaySampler(max_scale=5.0, min_scale=.5, random_state=seed)
        kw["delay_function"] = [dl.exponential_delay_function, dl.exponential_delay_function_expected_reward_weighted][pick(seed, 53, 2)]
    if pick(seed, 54, 3) == 2:
        dr = CoefficientDrifter(drift_interval=4, transition_period=[0, 2][pick(seed, 55, 2)], transition_type=["linear", "weighted_sampled"][pick(seed, 56, 2)], seasonal=bool(pick(seed, 57, 2)), random_state=seed)
        kw["coef_function"] = dr.get_coefficients
    if pick(seed, 58, 4) == 1:
        kw["action_context"] = r.randn(K, 2)
    e = S("make", lambda **k: BanditEnvironmentSimulator(**k), **kw)
    pol = P.LinTS(dim=2, n_actions=K, random_state=seed) if pick(seed, 59, 2) else P.EpsilonGreedy(n_actions=K, epsilon=.4, random_state=seed)
    sim = BanditPolicySimulator(policy=pol, environment=e)
    for n in (5, 3):
        b = S("next_bandit_round_batch", e.next_bandit_round_batch, n_rounds=n)
        S("steps(batch)", sim.steps, batch_bandit_rounds=b)
        yield
        S("steps(n)", sim.steps, n_rounds=4)
        S("trace", lambda: [sim.selected_actions, sim.obtained_rewards, sim.ground_truth_rewards, np.array(sim.contexts), sim.total_reward, sim.rounds_played])
        yield
    S("clear_delayed_queue", sim.clear_delayed_queue)
    S("next_bandit_round", e.next_bandit_round)


def drift(seed, S):
    kw = dict(drift_interval=3, transition_period=[0, 2][pick(seed, 60, 2)], transition_type=["linear", "weighted_sampled"][pick(seed, 61, 2)], seasonal=bool(pick(seed, 62, 2)), base_coefficient_weight=[0.0, .3][pick(seed, 63, 2)],
              effective_dim_action_context=3, effective_dim_context=2, random_state=seed)
    d = S("make", lambda **k: CoefficientDrifter(**k), **kw)
    for n in (2, 4, 5):
        S("get_coefficients", d.get_coefficients, n_rounds=n)
        yield


def replay(seed, S):
    r = R(seed)
    n, K, L = 30, 3, 1
    bf = dict(n_rounds=n, action=r.randint(K, size=n), position=np.zeros(n, int), reward=r.randint(2, size=n).astype(float), pscore=r.uniform(.1, 1, n), context=r.randn(n, 2), expected_reward=r.uniform(0, 1, (n, K)))
    for c in range(3):
        pol = [P.EpsilonGreedy(n_actions=K, epsilon=.4, random_state=seed), P.LinTS(dim=2, n_actions=K, random_state=seed), P.BernoulliTS(n_actions=K, random_state=seed)][(c + seed) % 3]
        S("run_bandit_replay", run_bandit_replay, bandit_feedback=bf, policy=pol)
        yield
    rs = R(seed)
    S("calc_ground_truth_policy_value", calc_ground_truth_policy_value, bandit_feedback=bf, reward_sampler=lambda context, action: float(rs.binomial(1, .5)), policy=P.LinUCB(dim=2, n_actions=K, epsilon=.3, random_state=seed), n_sim=2)


def helpers(seed, S):
    r = R(seed)
    pi = soft(r, 6, 4)
    S("sample_action_fast", U.sample_action_fast, pi[:, :, 0], random_state=seed)
    S("convert_to_action_dist", U.convert_to_action_dist, n_actions=4, selected_actions=r.randint(4, size=(5, 2)))
    yield
    S("bootstrap", U.estimate_confidence_interval_by_bootstrap, r.randn(9), n_bootstrap_samples=8, random_state=seed)
    S("softmax", U.softmax, r.randn(4, 3))
    S("sigmoid", U.sigmoid, r.randn(4) * 50)
    yield
    x, a = r.randn(5, 2), r.randn(3, 2)
    for f in (D.linear_reward_function, D.logistic_reward_function, D.polynomial_reward_function, D.sparse_reward_function, D.linear_behavior_policy, D.polynomial_behavior_policy, D.linear_behavior_policy_logit):
        S(f.__name__, f, context=x, action_context=a, random_state=seed)
    u = np.abs(r.randn(5))
    for f in (O.gaussian_kernel, O.epanechnikov_kernel, O.triangular_kernel, O.cosine_kernel):
        S(f.__name__, f, u)


ACTORS = {f.__name__: f for f in (synth, multilog, embeds, contds, slateds, multiclass, openbandit, single, tuned, continuous, multi, slates, mips, meta, regression, classification,
                                  slate_regression, contextfree, contextual, learners, nnl, cnnl, qfunc, environment, drift, replay, helpers)}
COST = {"contextual": .5, "contextfree": .7, "slateds": .7, "environment": .7, "openbandit": 6, "multiclass": 2, "classification": 3, "mips": 3, "single": 2, "slates": 2}


def mc(chk):
    chk.gen = chk.model("MC_Repro", out="s.ndjson", workers=4)
    if not chk.quick:
        chk.model("MC_Repro", "MC_ReproBig.cfg", workers=6)


def cases(chk):
    rng = chk.rng("cases")
    out = []
    for name in ACTORS:
        n = int((40 if chk.quick else 150) / COST.get(name, 1)) or 1
        base = rng.randrange(1000)
        for i in range(max(n, 3)):
            out.append(dict(kind=name, seed=base + i, sched=rng.choice(chk.gen), mates=[rng.choice(["contextual", "synth", "drift", "qfunc", "contextfree", "helpers", "slateds", name]) for _ in range(2)], chaos=rng.randrange(10**6)))
    rng.shuffle(out)
    return out


def run(case):
    torch.set_num_threads(1)
    rng = random.Random(case["chaos"])
    st = Stage()
    actor, seed, name = ACTORS[case["kind"]], case["seed"], case["kind"]

    def drain(l):
        while not l.done:
            l.step()
    drain(Life(st, 0, name, seed, actor))
    lives = {1: Life(st, 1, name, seed, actor), 2: Life(st, 2, name, seed, actor)}
    mates = [Life(st, 3 + i, m, rng.randrange(1000), ACTORS[m], record=False) for i, m in enumerate(case["mates"]) if m not in COST]
    for s in case["sched"]:
        if s == 0:
            noise(rng)
            for m in mates:
                m.step()
        else:
            lives[s].step()
            if rng.random() < .3:
                noise(rng)
    for l in lives.values():
        drain(l)
    return dict(kind=name, events=st.events, err="")
