"""Stand-in base models that record what they are trained on."""
import itertools
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from common import q, qa

FITS = []
_ids = itertools.count(1)
_rng = [np.random.RandomState(0)]


def reset(seed):
    FITS.clear()
    _rng[0] = np.random.RandomState(seed)


class _Base(BaseEstimator):
    def __init__(self, warm=False):
        self.warm = warm

    def _record(self, X, y, w, par):
        if not hasattr(self, "vid_"):
            self.vid_ = next(_ids)
        FITS.append(dict(m=self.vid_, X=np.array(X, dtype=float), y=np.array(y, dtype=float), w=None if w is None else np.array(w, dtype=float), par=par))
        return self

    def _z(self, X):
        X = np.asarray(X, dtype=float)
        return self.b_ + X @ self.c_

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X)
        if X.ndim != 2 or len(X) == 0 or len(X) != len(y):
            raise ValueError("bad training data")
        self.b_ = _rng[0].randint(-64, 64) / 32.0
        self.c_ = _rng[0].randint(-64, 64, X.shape[1]) / 64.0
        self.classes_ = np.array([0, 1])
        return self._record(X, y, sample_weight, dict(b=q(self.b_), c=qa(self.c_)))


class Regr(RegressorMixin, _Base):
    def predict(self, X):
        if len(X) == 0:
            raise ValueError("empty")
        return self._z(X)


class Clf(ClassifierMixin, _Base):
    """Binary classifier."""

    def predict_proba(self, X):
        if len(X) == 0:
            raise ValueError("empty")
        p = 1 / (1 + np.exp(-self._z(X)))
        return np.c_[1 - p, p]

    def predict(self, X):
        return (self._z(X) > 0).astype(int)


class Multi(ClassifierMixin, _Base):
    """Multi-class classifier knowing the classes of its training data only."""

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X)
        if X.ndim != 2 or len(X) == 0 or len(X) != len(y):
            raise ValueError("bad training data")
        self.classes_ = np.unique(y)
        k = len(self.classes_)
        self.b_ = _rng[0].randint(-64, 64, k) / 32.0
        self.c_ = _rng[0].randint(-64, 64, (k, X.shape[1])) / 64.0
        return self._record(X, y, sample_weight, dict(b=qa(self.b_), c=qa(self.c_), cls=[int(v) for v in self.classes_]))

    def predict_proba(self, X):
        if len(X) == 0:
            raise ValueError("empty")
        e = np.exp(self.b_ + np.asarray(X, dtype=float) @ self.c_.T)
        return e / e.sum(1, keepdims=True)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def fits(ctx):
    """Recorded fits, each row labelled with the (1-based) round whose context it carries (0: none)."""
    key = {tuple(c): i + 1 for i, c in enumerate(np.asarray(ctx, dtype=float).tolist())}
    d = np.shape(ctx)[1]
    out = []
    for f in FITS:
        w = f["w"]
        out.append(dict(m=f["m"], par=f["par"], hasw=w is not None,
                        rows=[dict(r=key.get(tuple(x[:d]), 0), x=qa(x), y=q(y), w=q(1 if w is None else w[j])) for j, (x, y) in enumerate(zip(f["X"].tolist(), f["y"].tolist()))]))
    return out


def value(f, tgt, clf, x, emb, a):
    """Prediction of recorded fit f for context x and action a."""
    from common import num
    par = f["par"]
    if tgt == "ps":
        if a not in par["cls"]:
            return 0.0
        e = np.exp(np.array(num(par["b"])) + np.array(num(par["c"])) @ np.array(x))
        return e[par["cls"].index(a)] / e.sum()
    v = np.r_[x, emb[a]]
    if len(par["c"]) != len(v):
        return float("nan")
    z = num(par["b"]) + float(np.dot(num(par["c"]), v))
    if tgt == "iw":
        return np.exp(z)
    return 1 / (1 + np.exp(-z)) if clf else z
