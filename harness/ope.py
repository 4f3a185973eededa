"""Drivers shared by the checks of the single-action estimators."""
import numpy as np
from common import q, qa, num, guarded
import obp.ope as O

CLS = {
    "rm": O.ReplayMethod, "ipw": O.InverseProbabilityWeighting,
    "snipw": O.SelfNormalizedInverseProbabilityWeighting, "dm": O.DirectMethod,
    "dr": O.DoublyRobust, "sndr": O.SelfNormalizedDoublyRobust,
    "switch-dr": O.SwitchDoublyRobust, "dr-os": O.DoublyRobustWithShrinkage,
    "sg-ipw": O.SubGaussianInverseProbabilityWeighting, "sg-dr": O.SubGaussianDoublyRobust,
    "b-ipw": O.BalancedInverseProbabilityWeighting,
}
NEEDS_PS = {"ipw", "snipw", "dr", "sndr", "switch-dr", "dr-os", "sg-ipw", "sg-dr"}
NEEDS_Q = {"dm", "dr", "sndr", "switch-dr", "dr-os", "sg-dr"}
HAS_LAM = {"ipw", "dr", "switch-dr", "dr-os", "sg-ipw", "sg-dr", "b-ipw"}


def arrays(log, flags=()):
    """numpy inputs of a log (list of rounds as in spec/OpeLog.tla)."""
    d = dict(
        action=np.array([r["a"] for r in log]),
        position=np.array([r["p"] for r in log]),
        reward=np.array([num(r["r"]) for r in log]),
        pscore=np.array([num(r["ps"]) for r in log]),
        action_dist=np.array([num(r["pi"]) for r in log]),
        estimated_rewards_by_reg_model=np.array([num(r["q"]) for r in log]),
        estimated_importance_weights=np.array([num(r.get("ew", "0")) for r in log]),
        estimated_pscore=np.array([num(r.get("eps", r["ps"])) for r in log]),
    )
    if "nopos" in flags:
        d["position"] = None
    if "intreward" in flags:
        d["reward"] = d["reward"].astype(int)
    if "int32" in flags:
        d["action"] = d["action"].astype(np.int32)
    if "fortran" in flags:
        d["action_dist"] = np.asfortranarray(d["action_dist"])
        d["estimated_rewards_by_reg_model"] = np.asfortranarray(d["estimated_rewards_by_reg_model"])
    if "strided" in flags:
        for k in ("reward", "pscore", "action", "estimated_pscore", "estimated_importance_weights"):
            d[k] = np.repeat(d[k], 2)[::2]
    return d


def make(est, lam=None, eps=False, **kw):
    if est in HAS_LAM and lam is not None:
        v = num(lam)
        kw["lambda_"] = v
    if est in NEEDS_PS:
        kw["use_estimated_pscore"] = bool(eps)
    return CLS[est](**kw)


def inputs(est, A, eps=False):
    k = dict(action_dist=A["action_dist"], position=A["position"])
    if est != "dm":
        k.update(reward=A["reward"], action=A["action"])
    if est in NEEDS_PS:
        k["pscore"] = A["pscore"]
        if eps:
            k["estimated_pscore"] = A["estimated_pscore"]
    if est in NEEDS_Q:
        k["estimated_rewards_by_reg_model"] = A["estimated_rewards_by_reg_model"]
    if est == "b-ipw":
        k["estimated_importance_weights"] = A["estimated_importance_weights"]
    return k


def dist(rng, n_actions, mode):
    """Random probability vector of dyadic rationals summing to exactly one."""
    if mode == "onehot":
        j = rng.randrange(n_actions)
        return [1.0 if i == j else 0.0 for i in range(n_actions)]
    m = 64 if mode == "coarse" else 4096
    cuts = sorted(rng.randrange(m + 1) for _ in range(n_actions - 1))
    if mode == "sparse":
        cuts = sorted(rng.choice([0, m, m // 2]) for _ in range(n_actions - 1))
    v, last = [], 0
    for c in cuts + [m]:
        v.append((c - last) / m)
        last = c
    return v


def random_log(rng, n=None, n_actions=None, len_list=None, style=None):
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 24])
    K = n_actions or rng.randrange(2, 7)
    L = len_list or rng.choice([1, 1, 2, 3, 4])
    style = style or rng.choice(["plain", "onehot", "sparse", "heavy", "neg", "onpolicy", "binary"])
    const_pi = rng.random() < 0.2
    base = None
    log = []
    for _ in range(n):
        mode = {"onehot": "onehot", "sparse": "sparse"}.get(style, rng.choice(["coarse", "fine", "sparse", "onehot"]))
        if base is None or not const_pi:
            cols = [dist(rng, K, mode) for _ in range(L)]
            base = cols
        cols = base
        pi = [[cols[p][a] for p in range(L)] for a in range(K)]
        a, p = rng.randrange(K), rng.randrange(L)
        ps = rng.choice([1.0, 0.5, 0.25, 0.125, rng.randrange(1, 64) / 64, rng.uniform(0.01, 1)])
        if style == "heavy" and rng.random() < 0.5:
            ps = rng.choice([2.0 ** -10, 2.0 ** -16, 1e-4])
        if style == "onpolicy" and pi[a][p] > 0:
            ps = pi[a][p]
        if style == "binary":
            r = float(rng.randrange(2))
        elif style == "neg":
            r = rng.choice([-1, 1]) * rng.randrange(0, 40) / 8
        else:
            r = rng.choice([0.0, 1.0, rng.randrange(0, 80) / 8, rng.gauss(1, 2)])
        qh = [[rng.choice([0.0, 1.0, rng.gauss(0, 1), rng.randrange(-16, 16) / 8]) for _ in range(L)] for _ in range(K)]
        log.append(dict(a=a, p=p, r=q(r), ps=q(ps), eps=q(rng.choice([1.0, 0.5, rng.uniform(0.02, 1)])),
                        pi=qa(pi), q=qa(qh), ew=q(rng.choice([0.0, 1.0, rng.randrange(0, 64) / 8]))))
    return log


def weights(log):
    from fractions import Fraction
    return [Fraction(r["pi"][r["a"]][r["p"]]) / Fraction(r["ps"]) for r in log]
