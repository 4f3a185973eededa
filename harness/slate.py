"""Drivers shared by the checks of the slate estimators."""
import numpy as np
from common import q, qa, num
import obp.ope as O

CLS = {"sips": O.SlateStandardIPS, "iips": O.SlateIndependentIPS, "rips": O.SlateRewardInteractionIPS,
       "snsips": O.SelfNormalizedSlateStandardIPS, "sniips": O.SelfNormalizedSlateIndependentIPS,
       "snrips": O.SelfNormalizedSlateRewardInteractionIPS, "cascade-dr": O.SlateCascadeDoublyRobust}


def make(est, len_list, n_actions, **kw):
    if est == "cascade-dr":
        return CLS[est](len_list=len_list, n_unique_action=n_actions, **kw)
    return CLS[est](len_list=len_list, **kw)


def arrays(log):
    c = lambda k: np.array([num(x[k]) for x in log])
    return dict(slate_id=np.array([x["s"] for x in log]), position=np.array([x["l"] for x in log]),
                action=np.array([x["a"] for x in log]), reward=c("r"), pscore=c("pb"), evaluation_policy_pscore=c("pe"),
                pscore_item_position=c("ib"), evaluation_policy_pscore_item_position=c("ie"),
                pscore_cascade=c("cb"), evaluation_policy_pscore_cascade=c("ce"),
                q_hat=np.array([num(v) for x in log for v in x["q"]]),
                evaluation_policy_action_dist=np.array([num(v) for x in log for v in x["d"]]))


def inputs(est, A):
    k = {f: A[f] for f in ("slate_id", "reward", "position")}
    if est in ("sips", "snsips"):
        k.update({f: A[f] for f in ("pscore", "evaluation_policy_pscore")})
    elif est in ("iips", "sniips"):
        k.update({f: A[f] for f in ("pscore_item_position", "evaluation_policy_pscore_item_position")})
    else:
        k.update({f: A[f] for f in ("pscore_cascade", "evaluation_policy_pscore_cascade")})
    if est == "cascade-dr":
        k.update({f: A[f] for f in ("action", "q_hat", "evaluation_policy_action_dist")})
    return k


def dyadic_dist(rng, k, zero=True):
    m = 16
    while True:
        cuts = sorted(rng.randrange(m + 1) for _ in range(k - 1))
        v = [(b - a) / m for a, b in zip([0] + cuts, cuts + [m])]
        if zero or min(v) > 0:
            return v


def random_log(rng, n=None, L=None, K=None, shuffle=None, ragged=None):
    n = n or rng.choice([1, 2, 3, 5, 9])
    L = L or rng.choice([1, 2, 2, 3, 4])
    K = K or rng.randrange(2, 5)
    shuffle = rng.random() < 0.6 if shuffle is None else shuffle
    ragged = rng.random() < 0.3 if ragged is None else ragged
    ids = rng.sample(range(max(60, 3 * n)), n) if rng.random() < .5 else list(range(n))
    rows = []
    for s in ids:
        cb = ce = 1.0
        here = []
        for l in range(L):
            pb, pe = dyadic_dist(rng, K, zero=False), dyadic_dist(rng, K)
            if rng.random() < 0.3:
                pe = pb
            a = rng.randrange(K)
            cb, ce = cb * pb[a], ce * pe[a]
            here.append(dict(s=s, l=l, a=a, r=q(rng.choice([0.0, 1.0, rng.gauss(0, 2), rng.randrange(-8, 8) / 4])),
                             ib=q(rng.choice([.5, .25, 1.0, rng.uniform(.05, 1)])), ie=q(rng.choice([0.0, .5, 1.0, rng.uniform(0, 1)])),
                             cb=q(cb), ce=q(ce), d=qa(pe), q=qa([rng.choice([0.0, 1.0, rng.gauss(0, 1)]) for _ in range(K)])))
        for x in here:
            x["pb"], x["pe"] = q(cb), q(ce)
        if ragged and L > 1:
            if rng.random() < .5:
                here = here[:rng.randrange(1, L + 1)]
            else:
                here = sorted(rng.sample(here, rng.randrange(1, L + 1)), key=lambda x: x["l"])
        rows += here
    if shuffle:
        rng.shuffle(rows)
    return rows, max(L, 1), K
