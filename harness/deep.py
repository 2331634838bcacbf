"""Shared helpers of the deep harnesses."""
import sys

import torch

torch.set_default_dtype(torch.float64)


class _Draw:
    """an arbitrary permutation, drawn element by element when it is read"""

    def __init__(self, env, name, n):
        self.env, self.name, self.n, self.out, self.left = env, name, n, [], list(range(n))

    def _get(self, i):
        while len(self.out) <= i:
            j = len(self.out)
            k = 0 if len(self.left) == 1 else int(self.env.int(f"{self.name}_{j}", 0, len(self.left) - 1))
            self.out.append(self.left.pop(k))
        return self.out[i]

    def tolist(self):
        return self

    def __iter__(self):
        for i in range(self.n):
            yield self._get(i)

    def __getitem__(self, s):
        if isinstance(s, slice):
            return [self._get(i) for i in range(*s.indices(self.n))]
        return self._get(range(self.n)[s])

    def __len__(self):
        return self.n


def arbitrary_shuffles(env):
    """every random permutation torch draws becomes an arbitrary one"""
    count = [0]

    def randperm(n, *a, **k):
        count[0] += 1
        d = _Draw(env, f"shuffle{count[0]}", n)
        if sys._getframe(1).f_globals.get("__name__") == "torch.utils.data.sampler":
            return d
        return torch.as_tensor(list(d), dtype=torch.int64)
    env.patch(torch, "randperm", randperm)
    return count


def rows_are(env, got, rows, msg):
    """got (tensor or array) has exactly the given rows, in order"""
    got = env.arr(got)
    n = got.shape[0] if hasattr(got, "shape") else len(got)
    env.check(n == len(rows), f"{msg}: {len(rows)} rows")
    if n == len(rows):
        for k, r in enumerate(rows):
            env.check_eq(got[k], env.array(list(r)) if isinstance(r, list) else r, msg)


class RecBase(torch.nn.Module):
    """recording base criterion, affine in every row and position"""

    def __init__(self, rows=False):
        super().__init__()
        self.calls = []
        self.rows = rows

    def __deepcopy__(self, memo):
        return self

    def forward(self, y_pred, y_true):
        self.calls.append((y_pred, y_true))
        per_row = 2.0 * y_pred[:, 0] + 5.0 * y_pred[:, 1] + 11.0 * y_true
        return per_row if self.rows else per_row.sum()

    @staticmethod
    def row(p, y):
        return 2.0 * p[0] + 5.0 * p[1] + 11.0 * y

    def value(self, env, preds, ys):
        t = 0.0
        for p, y in zip(preds, ys):
            t = t + self.row(p, y)
        return t


class RecAdapt(torch.nn.Module):
    """recording adaptation loss of constant value"""

    KEYS = ["y_s"] + [f"{k}_{s}" for k in ("y_pred", "domain_pred", "features", "sample_idx") for s in "st"]
    value0 = 17.0

    def __init__(self, zero=False):
        super().__init__()
        self.calls = []
        self.value = 0.0 if zero else self.value0

    def __deepcopy__(self, memo):
        return self

    def forward(self, **kw):
        self.calls.append(kw)
        return torch.tensor(self.value)


class Feat(torch.nn.Module):
    """layer with a two dimensional output per row"""

    def forward(self, X):
        return torch.stack([X, X + 1.0, 3.0 * X], dim=1)


def feat(X, k):
    x = [X[k, 0], X[k, 1]]
    return x + [v + 1.0 for v in x] + [3.0 * v for v in x]


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.ones(1))
        self.feat = Feat()

    def forward(self, X):
        f = self.feat(X).flatten(start_dim=1)
        return torch.stack([f[:, 0] + 4.0 * f[:, 1], f[:, 2] - 2.0 * f[:, 5] + 0.5], dim=1) * self.p


class WeightedNet(Net):
    def forward(self, X, sample_weight=None):
        y = super().forward(X)
        return y if sample_weight is None else y + 9.0 * sample_weight.unsqueeze(1)


class IgnoringNet(Net):
    def forward(self, X, sample_weight=None):
        return super().forward(X)


def head(f, w):
    """the predictions of Net for one row of features"""
    y = [f[0] + 4.0 * f[1], f[2] - 2.0 * f[5] + 0.5]
    return y if w is None else [v + 9.0 * w for v in y]


class RecDomain(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.calls = []

    def forward(self, f):
        self.calls.append(f)
        return 2.0 * f[:, 0] - 3.0 * f[:, 1]


def dom(f):
    return 2.0 * f[0] - 3.0 * f[1]


def row_of(p):
    """number of the row (column 0 of X holds it) a prediction of Net belongs to"""
    # p0 = x0 + 4 x1, p1 = x0 - 6 x1 + 1.5  ->  x0
    x0 = (p[0] * 6.0 + (p[1] - 1.5) * 4.0) / 10.0
    return int(x0 + 0.5)


PLAIN = dict(optimizer=torch.optim.SGD, callbacks="disable", train_split=None, verbose=0, lr=0.0)
