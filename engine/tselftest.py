"""Differential test of the tensor engine against torch."""
import os

import numpy as np
import torch
import torch.nn.functional as F

from . import npfun, stubs, tsym
from .env import SymEnv
from .explore import Explorer

T = torch
OPS = {
    "add": lambda a, b, i, m: a + b, "addi": lambda a, b, i, m: a + i, "subs": lambda a, b, i, m: 2 - a, "mulb": lambda a, b, i, m: a * m,
    "div": lambda a, b, i, m: a / (b * b + 1), "idiv": lambda a, b, i, m: i / 2, "rdiv": lambda a, b, i, m: 1 / (a * a + 1),
    "pow": lambda a, b, i, m: a ** 2, "neg": lambda a, b, i, m: -a, "inv": lambda a, b, i, m: ~m, "cmp": lambda a, b, i, m: (a > b) & m,
    "lt0": lambda a, b, i, m: i < 0, "eqi": lambda a, b, i, m: i == 1, "sum": lambda a, b, i, m: a.sum(), "sum0": lambda a, b, i, m: a.sum(0),
    "sum1k": lambda a, b, i, m: T.sum(a, dim=1, keepdim=True), "sumaxis": lambda a, b, i, m: T.sum(a, axis=1), "msum": lambda a, b, i, m: m.sum(),
    "mean": lambda a, b, i, m: T.mean(a), "mean0": lambda a, b, i, m: a.mean(0), "mean1k": lambda a, b, i, m: a.mean(dim=1, keepdim=True),
    "max": lambda a, b, i, m: a.max(), "max1": lambda a, b, i, m: T.max(a, 1)[0], "max1i": lambda a, b, i, m: a.max(dim=1).indices,
    "argmax": lambda a, b, i, m: a.argmax(1), "argmaxax": lambda a, b, i, m: T.argmax(a, axis=-1), "argmin": lambda a, b, i, m: T.argmin(a, dim=0),
    "any": lambda a, b, i, m: T.any(m), "all0": lambda a, b, i, m: m.all(0), "median": lambda a, b, i, m: T.median(a), "median0": lambda a, b, i, m: a.median(0)[0],
    "std": lambda a, b, i, m: a.std(), "var0": lambda a, b, i, m: a.var(0), "cumsum": lambda a, b, i, m: a.cumsum(1), "norm": lambda a, b, i, m: T.norm(a, dim=1, keepdim=True),
    "lnorm": lambda a, b, i, m: T.linalg.norm(a, dim=1), "lnormall": lambda a, b, i, m: T.linalg.norm(a[0] - b[0]), "view": lambda a, b, i, m: a.view(1, -1), "resh": lambda a, b, i, m: a.reshape(2, 3),
    "viewas": lambda a, b, i, m: a.view(-1).view_as(b), "perm": lambda a, b, i, m: a.unsqueeze(0).permute(2, 0, 1), "t": lambda a, b, i, m: a.t(), "T": lambda a, b, i, m: a.T,
    "repeat": lambda a, b, i, m: a.repeat(2, 1, 1), "squeeze": lambda a, b, i, m: a.unsqueeze(1).squeeze(), "flat": lambda a, b, i, m: a.unsqueeze(1).flatten(start_dim=1),
    "cat": lambda a, b, i, m: T.cat((a, b)), "catempty": lambda a, b, i, m: T.cat((T.Tensor(), a)), "cati": lambda a, b, i, m: T.cat((a, i)), "stack": lambda a, b, i, m: T.stack([a, b], dim=1),
    "mask": lambda a, b, i, m: a[m[:, 0]], "maskall": lambda a, b, i, m: a[m], "idx": lambda a, b, i, m: a[[2, 0]], "idx2": lambda a, b, i, m: a[:, 1], "idx3": lambda a, b, i, m: a[1],
    "idxt": lambda a, b, i, m: a[T.tensor([0, 2, 2])], "ell": lambda a, b, i, m: a[..., T.tensor([1])], "set": lambda a, b, i, m: _set(a, m[:, 0], 7.0), "setrows": lambda a, b, i, m: _set(a, T.tensor([0, 1]), b[:2]),
    "setcol": lambda a, b, i, m: _set(a, (Ellipsis, 0), float("2")), "iadd": lambda a, b, i, m: _iadd(a, b), "mm": lambda a, b, i, m: T.mm(a, b.t()), "matmul": lambda a, b, i, m: a @ b.T,
    "bmm": lambda a, b, i, m: T.bmm(a.unsqueeze(2), b.unsqueeze(1)), "diag": lambda a, b, i, m: T.diag(a[:, 0]), "diag2": lambda a, b, i, m: T.diag(a[:2]), "einsum": lambda a, b, i, m: T.einsum("ij,ik->jk", a, b),
    "cov": lambda a, b, i, m: T.cov(a.T), "cdist": lambda a, b, i, m: T.cdist(a, b), "cdist2": lambda a, b, i, m: T.cdist(a, b, p=2) ** 2, "mse": lambda a, b, i, m: F.mse_loss(a, b, reduction="sum"),
    "msem": lambda a, b, i, m: F.mse_loss(a, b), "relu": lambda a, b, i, m: F.relu(a), "topk": lambda a, b, i, m: T.topk(a[:, 0], k=2)[1], "topk2": lambda a, b, i, m: T.topk(-a, k=1, dim=1)[1],
    "scatter": lambda a, b, i, m: T.zeros(3, 2, dtype=a.dtype).scatter_(1, T.tensor([[0], [1], [1]]), 0.5) + a, "bincount": lambda a, b, i, m: T.bincount(i.abs()[:, 0], minlength=4), "unique": lambda a, b, i, m: i.unique(),
    "where": lambda a, b, i, m: T.where(m, a, b), "where0": lambda a, b, i, m: T.where(m, a, 0.0), "clamp": lambda a, b, i, m: a.clamp(min=-1, max=1), "isnan": lambda a, b, i, m: T.isnan(a), "float": lambda a, b, i, m: m.float(), "long": lambda a, b, i, m: a.long(),
    "norml": lambda a, b, i, m: F.normalize(a, p=2, dim=1), "cos": lambda a, b, i, m: F.cosine_similarity(a.unsqueeze(1), b.unsqueeze(0), dim=2), "cosd": lambda a, b, i, m: F.cosine_similarity(a.unsqueeze(1), b.unsqueeze(0)),
    "onehot": lambda a, b, i, m: F.one_hot(i.abs() % 3, 4), "zl": lambda a, b, i, m: T.zeros_like(a, dtype=T.int64), "full": lambda a, b, i, m: T.full((3,), 2), "allclose": lambda a, b, i, m: T.tensor(T.allclose(a, b)),
    "gather": lambda a, b, i, m: a.gather(1, i.abs() % 2), "triu": lambda a, b, i, m: T.triu(a[:2]), "expand": lambda a, b, i, m: a[:, :1].expand(3, 4), "sort": lambda a, b, i, m: T.sort(a, dim=0)[0], "linear": lambda a, b, i, m: F.linear(a, b, b[:, 0]),
    "inv2": lambda a, b, i, m: T.linalg.inv(a[:2] @ a[:2].T + T.eye(2, dtype=a.dtype)), "solve": lambda a, b, i, m: T.linalg.solve(a @ a.T + T.eye(3, dtype=a.dtype), b), "chol": lambda a, b, i, m: T.linalg.cholesky(a @ a.T + T.eye(3, dtype=a.dtype)),
    "det": lambda a, b, i, m: T.linalg.det(a[:2]), "inv1": lambda a, b, i, m: T.linalg.inv(a[:1, :1] * 0 + 4.0),
    "bnorm": lambda a, b, i, m: F.batch_norm(a, T.tensor([1.0, 2.0], dtype=a.dtype), T.tensor([0.5, 3.0], dtype=a.dtype), T.tensor([2.0, 1.5], dtype=a.dtype), T.tensor([0.25, 1.0], dtype=a.dtype)),
    "module": lambda a, b, i, m: _lin()(a), "collate": lambda a, b, i, m: torch.utils.data.default_collate([{"x": a[0]}, {"x": b[1]}])["x"], "item": lambda a, b, i, m: T.tensor(a[0, 0].item()), "boolsum": lambda a, b, i, m: T.tensor(1 if m.sum() > 2 else 0),
    "median1": lambda a, b, i, m: T.median(a[:, 0]), "prod": lambda a, b, i, m: a.prod(), "outer": lambda a, b, i, m: T.outer(a[0], b[0]), "maximum": lambda a, b, i, m: T.maximum(a, b), "maxzero": lambda a, b, i, m: T.max(a, b),
    "ce": lambda a, b, i, m: _ce(a, i), "cenone": lambda a, b, i, m: F.cross_entropy(a * 0, i.abs()[:, 0] % 2, reduction="none"), "bce": lambda a, b, i, m: F.binary_cross_entropy(a * 0 + 0.5, m.to(a.dtype)), "softmax": lambda a, b, i, m: T.softmax(a * 0, dim=1),
    "viewalias": lambda a, b, i, m: _alias(a), "grl": lambda a, b, i, m: _grl(a), "numpy": lambda a, b, i, m: T.as_tensor(np.concatenate([a.numpy(), b.numpy()])), "trace": lambda a, b, i, m: T.trace(a[:2]), "aswhole": lambda a, b, i, m: T.tensor([1, 2]) * i[0],
    "cov1": lambda a, b, i, m: T.cov(a[:, 0]), "norm1": lambda a, b, i, m: a.norm(), "sumdt": lambda a, b, i, m: i.sum(0), "chain": lambda a, b, i, m: (a - a.mean(0)) / a.std(0), "any1": lambda a, b, i, m: T.any(a > 5), "eye": lambda a, b, i, m: T.eye(2) @ a.T.to(T.get_default_dtype()), "ce0": lambda a, b, i, m: F.nll_loss(a, i.abs()[:, 0] % 2, reduction="sum"),
}


def _lin():
    l = torch.nn.Linear(2, 2).double()
    with torch.no_grad():
        for k, p in enumerate(l.parameters()):
            p.copy_(torch.arange(1.0, p.numel() + 1).reshape(p.shape) + k)
    return torch.nn.Sequential(l, torch.nn.ReLU())


def _grl(a):
    from skada.deep.modules import GradientReversalLayer
    return GradientReversalLayer.apply(a, 1.0) + 0


def _ce(a, i):
    return F.cross_entropy(torch.stack([a[:, 0], a[:, 0]], 1) * 1.0, i.abs()[:, 0] % 2) * 0 + a.sum()


def _alias(a):
    a = a.clone()
    v = a.view(-1)
    v[0] = 9.0
    a.T[1, 2] += 4
    return a


def _set(x, k, v):
    x = x.clone()
    x[k] = v
    return x


def _iadd(a, b):
    a = a.clone()
    a += b
    a.mul_(2)
    a[1] *= 3
    return a


def main():
    npfun.install()
    stubs.install()
    tsym.install()
    torch.set_default_dtype(torch.float64)
    rng = np.random.RandomState(int(os.environ.get("VERIF_SEED", "1") or 1))
    bad = n = 0
    only = os.environ.get("ONLY")
    for name, op in OPS.items():
        if only and name != only:
            continue
        for _ in range(2):
            a = np.round(rng.uniform(-3, 3, (3, 2)), 2)
            b = np.round(rng.uniform(-3, 3, (3, 2)), 2)
            i = rng.randint(-2, 3, (3, 2))
            m = rng.rand(3, 2) < 0.5
            want = op(torch.tensor(a), torch.tensor(b), torch.tensor(i), torch.tensor(m))

            def run(path):
                env = SymEnv(path, {})
                ss = (env.reals("a", (3, 2)), env.reals("b", (3, 2)), env.ints("i", (3, 2), -9, 9), env.bools("m", (3, 2)))
                for s, c in zip(ss, (a, b, i, m)):
                    for k in np.ndindex(c.shape):
                        env.assume(s[k] == c[k].item())
                got = op(*[env.tensor(s) for s in ss])
                if not isinstance(want, torch.Tensor):
                    env.check(got == want, "value")
                    return
                env.check(got.dtype == want.dtype, f"dtype {got.dtype} != {want.dtype}")
                env.check(tuple(got.shape) == tuple(want.shape), f"shape {got.shape} {want.shape}")
                env.check_eq(env.arr(got), want.detach().numpy(), "value")

            ex = Explorer(run, time_budget=60, exact_sqrt=True)
            ex.explore()
            n += 1
            if ex.cex or ex.limits or ex.inconclusive or not ex.stats["checked_paths"]:
                bad += 1
                print("TSELFTEST", name, [c["msg"] for c in ex.cex], [(l["exc"], l["where"][-2:]) for l in ex.limits][:1],
                      ex.inconclusive[:1])
    print(f"tensor selftest: {n} comparisons, {bad} bad")
    return 1 if bad else 0
