"""Recording stub estimators.  What they output is an injective-enough affine
function of the rows they saw at fit time and of the rows they are given, so
that any mis-routing shows up as a different (symbolic) value."""
import numpy as np
from sklearn.base import BaseEstimator

from engine.rng import GenRng, NDRng  # noqa: F401

LOG = []


def reset():
    LOG.clear()


def tag(X, y=None, w=None):
    """position-weighted sum over the fit data"""
    t = 0.0
    for k in range(X.shape[0]):
        t = t + (k + 1) * X[k, 0]
        if w is not None:
            t = t + (k + 1) * 7 * w[k]
    return t


class RecPredictor(BaseEstimator):
    """predictor stub: records what it was fitted with"""

    def __init__(self, name="p"):
        self.name = name

    def fit(self, X, y=None, sample_weight=None):
        return self._fit(X, y, sample_weight)

    def _fit(self, X, y, sample_weight=None, sample_domain=None):
        LOG.append(dict(name=self.name, what="fit", X=X, y=y, w=sample_weight, d=sample_domain))
        self.t_ = tag(X)
        self.classes_ = np.array([0, 1])
        return self

    def predict(self, X, sample_weight=None):
        LOG.append(dict(name=self.name, what="predict", X=X, w=sample_weight))
        return 3.0 * X[:, 0] + self.t_

    def decision_function(self, X):
        return 5.0 * X[:, 0] + self.t_

    def predict_proba(self, X):
        return np.stack([X[:, 0] + self.t_, 1.0 - X[:, 0] - self.t_], axis=1)

    def score(self, X, y, sample_weight=None):
        LOG.append(dict(name=self.name, what="score", X=X, y=y, w=sample_weight))
        return self.t_


class RecDomainPredictor(RecPredictor):
    def fit(self, X, y=None, sample_weight=None, sample_domain=None):
        return self._fit(X, y, sample_weight, sample_domain)


class RecTransformer(BaseEstimator):
    """transformer stub without fit_transform"""

    def __init__(self, name="t"):
        self.name = name

    def fit(self, X, y=None, sample_weight=None):
        LOG.append(dict(name=self.name, what="fit", X=X, y=y, w=sample_weight))
        self.t_ = tag(X)
        return self

    def transform(self, X):
        LOG.append(dict(name=self.name, what="transform", X=X))
        return X + self.t_


class RecFitTransformer(RecTransformer):
    def fit_transform(self, X, y=None, sample_weight=None):
        LOG.append(dict(name=self.name, what="fit_transform", X=X, y=y, w=sample_weight))
        self.t_ = tag(X)
        return X + self.t_


def fits(name):
    return [r for r in LOG if r["name"] == name and r["what"].startswith("fit")]


def calls(name, what):
    return [r for r in LOG if r["name"] == name and r["what"] == what]


def sign_split(d):
    src = [i for i in range(len(d)) if d[i] >= 0]
    return src, [i for i in range(len(d)) if i not in src]


def tag_of(rows):
    t = 0.0
    for k, r in enumerate(rows):
        t = t + (k + 1) * r[0]
    return t
