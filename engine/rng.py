"""A RandomState whose draws are arbitrary (outside the array gate on purpose)."""
import numpy as np

_BITS = np.random.MT19937(0)


class NDRng(np.random.RandomState):
    """a RandomState whose draws are arbitrary (every outcome is explored);
    check_random_state accepts it as is"""

    def __new__(cls, env=None, *a, **k):
        return super().__new__(cls, _BITS)

    def __init__(self, env):
        super().__init__(_BITS)
        self.env = env
        self.k = 0
        n = env.__dict__.setdefault("_n_rng", 0)
        env._n_rng = n + 1
        self.tag = "rng" if n == 0 else f"rng{chr(96 + n)}"

    def __reduce__(self):
        return (NDRng, (self.env,))

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def _name(self):
        self.k += 1
        return f"{self.tag}{self.k}"

    def _perm(self, n):
        return self.env.perm(self._name(), n)

    def permutation(self, x):
        n = int(x) if not hasattr(x, "__len__") else len(x)
        p = self._perm(n)
        if not hasattr(x, "__len__"):
            return np.array(p, dtype=np.int64)
        x = x if isinstance(x, np.ndarray) else np.array(x)
        return x[np.array(p, dtype=np.int64)]

    def shuffle(self, x):
        p = self._perm(len(x))
        old = [x[i] for i in range(len(x))]
        for i, j in enumerate(p):
            x[i] = old[j]

    def choice(self, a, size=None, replace=True, p=None):
        nm = self._name()
        vals = list(range(int(a))) if not hasattr(a, "__len__") else [a[i] for i in range(len(a))]
        k = 1 if size is None else int(np.prod(size))
        if not vals or (not replace and k > len(vals)):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        out, left = [], list(range(len(vals)))
        for i in range(k):
            j = left[self.env.pick(f"{nm}_{i}", range(len(left)))]
            if not replace:
                left.remove(j)
            out.append(vals[j])
        if size is None:
            return out[0]
        if k == 0:
            return np.zeros(0, dtype=getattr(a, "dtype", np.int64))
        if isinstance(a, np.ndarray):
            return self.env.array(out, a.dtype)
        return np.array(out)

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        nm = self._name()
        if size is None:
            return self.env.int(nm, int(lo), int(hi) - 1)
        return self.env.ints(nm, size, int(lo), int(hi) - 1)

    def _unit(self, *size):
        nm = self._name()
        if not size:
            return self.env.real(nm, 0, 1)
        return self.env.reals(nm, tuple(int(s) for s in size), 0, 1)

    def rand(self, *size):
        return self._unit(*size)

    def random_sample(self, size=None):
        return self._unit(*(() if size is None else (size,) if isinstance(size, int) else size))

    def randn(self, *size):
        nm = self._name()
        if not size:
            return self.env.real(nm, -3, 3)
        return self.env.reals(nm, tuple(int(s) for s in size), -3, 3)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self.randn(*(() if size is None else (size,) if isinstance(size, int) else size))
        return loc + scale * z

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._unit(*(() if size is None else (size,) if isinstance(size, int) else size))
        return low + (high - low) * u


class GenRng(NDRng):
    """arbitrary draws remembered by position, so that a second run can be given the same ones.
    big arrays (more than `cap` entries per sample) are symbolic in their first columns only."""

    def __new__(cls, env=None, *a, **k):
        return NDRng.__new__(cls, env)

    def __init__(self, env, memo=None, same=False, few=False):
        NDRng.__init__(self, env)
        self.few = few
        self.memo = {} if memo is None else memo
        self.pos = 0
        self.same = same
        self.log = []

    def __reduce__(self):
        return (GenRng, (self.env, self.memo, self.same))

    def _draw(self, kind, shape, lo, hi):
        key = (kind, shape) if self.same else (self.pos, kind, shape)
        self.pos += 1
        if key not in self.memo:
            nm = f"g{len(self.memo)}"
            if shape and shape[-1] > 500:
                v = self.env.reals(nm, shape[:-1] + (3,), lo, hi)
                v = self.env.array(_pad(v, shape), np.float64)
            else:
                v = self.env.reals(nm, shape, lo, hi) if shape else self.env.real(nm, lo, hi)
            self.memo[key] = v
        v = self.memo[key]
        v = v.copy() if hasattr(v, "copy") else v
        self.log.append((kind, v.copy() if hasattr(v, "copy") else v))
        return v

    def _unit(self, *size):
        return self._draw("u", tuple(int(s) for s in size), 0, 1)

    def randn(self, *size):
        return self._draw("z", tuple(int(s) for s in size), -3, 3)

    def standard_normal(self, size=None):
        return self.randn(*(() if size is None else (size,) if isinstance(size, (int, np.integer)) else size))

    def multivariate_normal(self, mean, cov, size=None, **kw):
        size = () if size is None else (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        z = self.randn(*size, len(mean))
        self.log.append(("mvn", (np.array(mean, dtype=float), np.array(cov, dtype=float), z)))
        return np.array(mean, dtype=float) + z

    def choice(self, a, size=None, replace=True, p=None):
        """without replacement: an arbitrary start and direction"""
        shape = () if size is None else (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        k = int(np.prod(shape))
        n = int(a) if not hasattr(a, "__len__") else len(a)
        key = (self.pos, "choice", n, shape)
        self.pos += 1
        if key not in self.memo:
            if k > n and not replace:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            s = 0 if self.few else self.env.pick(f"g{len(self.memo)}s", [0, n // 2])
            t = self.env.pick(f"g{len(self.memo)}t", [1, -1])
            self.memo[key] = [(s + t * j) % n for j in range(k)]
        out = np.array(self.memo[key], dtype=np.int64)
        self.log.append(("choice", dict(n=n, replace=replace, p=p, out=out)))
        out = out.reshape(shape)
        return out if not hasattr(a, "__len__") else a[out]


def _pad(v, shape):
    o = np.zeros(shape, dtype=object)
    o[...] = 0.0
    for k in np.ndindex(shape[:-1] + (3,)):
        o[k] = v[k]
    return o


def ast_id(v):
    """the same for two values only if they are the same term (or number)"""
    from . import sym as S
    return S.expr_real(v).get_id() if isinstance(v, S.Sym) else float(v)
