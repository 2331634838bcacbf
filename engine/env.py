"""The two worlds a harness runs in: symbolic (z3 terms) and replay (numbers)."""
import math
from fractions import Fraction

import numpy as np

TOL = 1e-6


class Unreproduced(Exception):
    pass


class BaseEnv:
    def __init__(self, params):
        self.p = dict(params)
        self._patches = []

    def patch(self, obj, attr, val):
        missing = object()
        old = obj.__dict__.get(attr, missing) if isinstance(obj, type) else getattr(obj, attr, missing)
        self._patches.append((obj, attr, old, missing))
        setattr(obj, attr, val)

    def restore(self):
        for obj, attr, old, missing in reversed(self._patches):
            if old is missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._patches = []

    # torch --------------------------------------------------------------
    def tensor(self, a, dtype=None):
        """tensor with the values of an array"""
        import torch
        t = self._tensor(a)
        return t if dtype is None else t.to(dtype)

    def arr(self, t):
        """array with the values of a tensor (anything else unchanged)"""
        if isinstance(t, (tuple, list)):
            return type(t)(self.arr(v) for v in t)
        return t.detach().cpu().numpy() if hasattr(t, "detach") else t

    # derived helpers ----------------------------------------------------
    def ints(self, name, shape, lo, hi, dtype=np.int64):
        shape = (shape,) if isinstance(shape, int) else shape
        o = np.empty(shape, dtype=object)
        for k in np.ndindex(shape):
            o[k] = self.int(name + "".join(f"_{i}" for i in k), lo, hi)
        return self._arr(o, dtype)

    def reals(self, name, shape, lo=-100, hi=100, dtype=np.float64, nan=False):
        shape = (shape,) if isinstance(shape, int) else shape
        o = np.empty(shape, dtype=object)
        for k in np.ndindex(shape):
            o[k] = self.real(name + "".join(f"_{i}" for i in k), lo, hi, nan)
        return self._arr(o, dtype)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else shape
        o = np.empty(shape, dtype=object)
        for k in np.ndindex(shape):
            o[k] = self.bool(name + "".join(f"_{i}" for i in k))
        return self._arr(o, bool)

    def pick(self, name, options):
        options = list(options)
        return options[int(self.int(name, 0, len(options) - 1))]

    def perm(self, name, n):
        """an arbitrary permutation of range(n) (list of ints)"""
        left = list(range(n))
        out = []
        for i in range(n):
            k = 0 if len(left) == 1 else int(self.int(f"{name}_{i}", 0, len(left) - 1))
            out.append(left.pop(k))
        return out

    def check_rows(self, got, rows, msg, exact=True):
        """got (array) has exactly the given list of rows/elements in order"""
        n = np.shape(got)[0] if hasattr(got, "shape") else len(got)
        if n != len(rows):
            self.check(False, f"{msg}: expected {len(rows)} rows, got {n}")
            return
        for i, r in enumerate(rows):
            self.check_eq(got[i], r, f"{msg}: row {i}")

    def check_list(self, got, want, msg):
        self.check(list(got) == list(want), f"{msg}: {list(got)} != {list(want)}")

    def raises(self, fn, excs, msg):
        try:
            fn()
        except excs:
            self.check(True, msg)
            return True
        self.check(False, msg)
        return False


def _flat(x):
    from . import sym as S
    if isinstance(x, np.ndarray):
        o = S.to_obj(x)
        return o.shape, list(o.ravel())
    if isinstance(x, (list, tuple)):
        o = S.to_obj(list(x))
        return o.shape, list(o.ravel())
    return (), [x]


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, path, params):
        super().__init__(params)
        self.path = path
        self.vars = {}
        path.env = self

    def _reg(self, name, c):
        if name in self.vars:
            raise RuntimeError(f"duplicate symbolic input {name}")
        self.vars[name] = c
        return c

    def _arr(self, o, dtype):
        from .sym import SymArray
        return SymArray.wrap(o, dtype)

    def _tensor(self, a):
        from . import tsym
        return tsym.wrap(a.copy() if hasattr(a, "copy") else a)

    def array(self, items, dtype=None):
        from . import sym as S
        return S.to_sym(items if isinstance(items, np.ndarray) else list(items), dtype)

    def int(self, name, lo, hi):
        import z3
        from .sym import SymInt, mkbool
        if lo == hi:
            return lo
        c = self._reg(name, z3.Int(name))
        self.path.assume(mkbool(z3.And(c >= lo, c <= hi)))
        return SymInt(c)

    def real(self, name, lo=-100, hi=100, nan=False):
        import z3
        from .sym import SymReal, mkbool
        c = self._reg(name, z3.Real(name))
        self.path.assume(mkbool(z3.And(c >= lo, c <= hi)))
        n = self._reg(name + "#nan", z3.Bool(name + "#nan")) if nan else None
        return SymReal(c, n)

    def bool(self, name):
        import z3
        from .sym import SymBool
        return SymBool(self._reg(name, z3.Bool(name)))

    def assume(self, c):
        self.path.assume(c)

    def cover(self, label):
        self.path.covers.add(label)

    def check(self, cond, msg):
        from . import sym as S
        p = self.path
        p.obligations += 1
        if isinstance(cond, S.SymArray):
            cond = cond.all()
        if isinstance(cond, S.Sym):
            c = S.truth(cond).e
            p.checks.append((c, msg))
        elif not cond:
            import z3
            p.checks.append((z3.BoolVal(False), msg))
        else:
            p.trivial += 1

    def eq(self, a, b, tol=TOL):
        """Truth of equality incl. shapes; NaN equals NaN."""
        from . import sym as S
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa != sb:
            return False
        r = True
        for x, y in zip(fa, fb):
            if x is y:
                continue
            if isinstance(x, S.Sym) and isinstance(y, S.Sym) and type(x) is type(y) and x.e.eq(y.e) \
                    and getattr(x, "nan", None) is getattr(y, "nan", None):
                continue
            if not (S.is_num(x) and S.is_num(y)):
                r = S._logic("and", r, bool(x == y))
                continue
            nx, ny = S._isnan(x), S._isnan(y)
            same_nan = S._not(S._logic("xor", nx, ny))
            x0, y0 = S.strip_nan(x), S.strip_nan(y)
            if S.isnanc(x0) or S.isnanc(y0):
                r = S._logic("and", r, same_nan)
                continue
            if S.isinfc(x0) or S.isinfc(y0) or "f" not in (S.kind(x0), S.kind(y0)):
                c = S._cmp("eq", x0, y0)
            else:
                d = S.op_sub(x0, y0)
                c = S._logic("and", S._cmp("le", d, Fraction(tol)), S._cmp("ge", d, -Fraction(tol)))
            c = S._logic("or", S._logic("and", nx, ny), S._logic("and", same_nan, c))
            r = S._logic("and", r, c)
        return r

    def check_eq(self, a, b, msg, tol=TOL):
        self.check(self.eq(a, b, tol), msg)

    def check_le(self, a, b, msg, tol=TOL):
        """a <= b (up to tol), elementwise"""
        from . import sym as S
        d = S.to_sym(a) - S.to_sym(b)
        for x in S.to_obj(d).ravel():
            self.check(S._logic("and", S._not(S._isnan(x)), S._cmp("le", S.strip_nan(x), Fraction(tol))), msg)

    def snapshot(self, a):
        return None if a is None else a.copy()

    def model_values(self, model):
        import z3
        out = {}
        for n, c in self.vars.items():
            v = model.eval(c, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                out[n] = str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            else:
                out[n] = z3.is_true(v)
        return out


class ReplayEnv(BaseEnv):
    symbolic = False

    def __init__(self, values, params):
        super().__init__(params)
        self.values = values
        self.failures = []
        self.nchecks = 0
        self.covers = set()
        self.assume_failed = False

    def _arr(self, o, dtype):
        return o.astype(dtype)

    def _tensor(self, a):
        import torch
        return torch.tensor(np.asarray(a))

    def array(self, items, dtype=None):
        return np.array(items if isinstance(items, np.ndarray) else list(items), dtype=dtype)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self.values.get(name, lo))

    def real(self, name, lo=-100, hi=100, nan=False):
        if nan and self.values.get(name + "#nan", False):
            return float("nan")
        return float(Fraction(self.values.get(name, "0")))

    def bool(self, name):
        return bool(self.values.get(name, False))

    def assume(self, c):
        if not bool(np.all(c)):
            self.assume_failed = True
            raise Unreproduced("assumption not met by the replayed values")

    def cover(self, label):
        self.covers.add(label)

    def check(self, cond, msg):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.failures.append(msg)

    def eq(self, a, b, tol=TOL):
        if _shape(a) != _shape(b):
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "biuf" and b.dtype.kind in "biuf":
            return bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-9, atol=tol / 10, equal_nan=True))
        return bool(np.all(a == b))

    def check_eq(self, a, b, msg, tol=TOL):
        ok = self.eq(a, b, tol)
        self.nchecks += 1
        if not ok:
            self.failures.append(f"{msg}: got {_short(a)}, expected {_short(b)}")

    def check_le(self, a, b, msg, tol=TOL):
        self.nchecks += 1
        d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
        if not bool(np.all(d <= tol / 10)):
            self.failures.append(f"{msg}: {_short(a)} > {_short(b)}")

    def snapshot(self, a):
        return None if a is None else np.array(a, copy=True)


def _shape(x):
    return np.asarray(x).shape


def _short(x):
    s = np.array2string(np.asarray(x), threshold=20).replace("\n", " ") if not np.isscalar(x) else str(x)
    return s[:160]
