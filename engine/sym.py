"""Symbolic scalars and arrays executed by the *real* skada code.

Elements of a ``SymArray`` (an ``ndarray`` subclass with object storage and a
virtual dtype) are either concrete Python numbers or ``Sym`` wrappers around z3
terms.  Control-flow uses of a symbolic value (``bool``, ``__index__``, sort
comparisons, boolean-mask indexing ...) go through ``CTX.branch`` which records
a path condition; the explorer (explore.py) asks z3 for the alternative.
"""
import math
import numbers
import operator
from fractions import Fraction
from functools import cmp_to_key

import numpy as np
import z3


class PathAbort(BaseException):
    """The current path is abandoned (assumption false, budget...)."""


class EngineLimit(Exception):
    """The engine cannot encode something."""


TENSOR = []     # [SymTensor] once engine.tsym is installed


def is_tensor(x):
    return bool(TENSOR) and isinstance(x, TENSOR[0])


class Ctx:
    """Current path; replaced by explore.Path while exploring."""

    path = None

    def branch(self, cond):
        if self.path is None:
            raise EngineLimit("symbolic branch outside exploration")
        return self.path.branch(cond)

    def value(self, e):
        return self.path.value(e)


CTX = Ctx()


def active():
    return CTX.path is not None


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------

_RAT = {}


def rational(x):
    """Exact-ish rational for a Python number (floats snapped to small
    denominators when that is within float rounding)."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    r = _RAT.get(x)
    if r is None:
        f = Fraction(x)
        g = f.limit_denominator(5040)
        r = g if abs(f - g) <= abs(f) * Fraction(1, 10**14) else f
        _RAT[x] = r
    return r


def zreal(x):
    r = rational(x)
    return z3.Q(r.numerator, r.denominator) if r.denominator != 1 \
        else z3.RealVal(r.numerator)


def isnanc(x):
    return isinstance(x, (float, np.floating)) and x != x


def isinfc(x):
    return isinstance(x, (float, np.floating)) and (x == math.inf or x == -math.inf)


def is_num(x):
    return isinstance(x, (Sym, bool, int, float, Fraction, np.number, np.bool_))


class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000.0
    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def squeeze(self, *a):
        return self

    def reshape(self, *s):
        return SymArray.from_list([self], self.dtype).reshape(*s)

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def astype(self, dtype, **k):
        return cast(self, np.dtype(dtype))

    def any(self, *a, **k):
        return truth(self)

    all = any

    def __hash__(self):
        return hash(self.concretise())

    # arithmetic --------------------------------------------------------
    def __add__(self, o): return _bin("add", self, o)
    def __radd__(self, o): return _bin("add", o, self)
    def __sub__(self, o): return _bin("subtract", self, o)
    def __rsub__(self, o): return _bin("subtract", o, self)
    def __mul__(self, o): return _bin("multiply", self, o)
    def __rmul__(self, o): return _bin("multiply", o, self)
    def __truediv__(self, o): return _bin("true_divide", self, o)
    def __rtruediv__(self, o): return _bin("true_divide", o, self)
    def __floordiv__(self, o): return _bin("floor_divide", self, o)
    def __rfloordiv__(self, o): return _bin("floor_divide", o, self)
    def __mod__(self, o): return _bin("remainder", self, o)
    def __rmod__(self, o): return _bin("remainder", o, self)
    def __pow__(self, o): return _bin("power", self, o)
    def __rpow__(self, o): return _bin("power", o, self)
    def __and__(self, o): return _bin("bitwise_and", self, o)
    def __rand__(self, o): return _bin("bitwise_and", o, self)
    def __or__(self, o): return _bin("bitwise_or", self, o)
    def __ror__(self, o): return _bin("bitwise_or", o, self)
    def __xor__(self, o): return _bin("bitwise_xor", self, o)
    def __rxor__(self, o): return _bin("bitwise_xor", o, self)
    def __eq__(self, o): return _bin("equal", self, o)
    def __ne__(self, o): return _bin("not_equal", self, o)
    def __lt__(self, o): return _bin("less", self, o)
    def __le__(self, o): return _bin("less_equal", self, o)
    def __gt__(self, o): return _bin("greater", self, o)
    def __ge__(self, o): return _bin("greater_equal", self, o)
    def __neg__(self): return UN["negative"](self)
    def __pos__(self): return self
    def __abs__(self): return UN["absolute"](self)
    def __invert__(self): return UN["invert"](self)

    def __round__(self, n=None):
        return UN["rint"](self) if not n else self

    def __floor__(self): return to_int_floor(self)
    def __ceil__(self): return -to_int_floor(-self)
    def __trunc__(self): return cast(self, np.dtype(np.int64))

    def __bool__(self):
        return CTX.branch(truth(self).e)

    def __repr__(self):
        return f"<{type(self).__name__}>"


class SymBool(Sym):
    __slots__ = ()
    dtype = np.dtype(bool)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def concretise(self):
        return bool(self)

    def __str__(self):
        return str(bool(self))

    def __hash__(self):
        return hash(bool(self))


class SymInt(Sym):
    __slots__ = ()
    dtype = np.dtype(np.int64)

    def __init__(self, e):
        self.e = e

    def concretise(self):
        """Exhaustive: forks over every feasible value."""
        return CTX.path.fork_value(self.e)

    def __index__(self):
        return self.concretise()

    __int__ = __index__

    def __float__(self):
        return float(self.concretise())

    def __str__(self):
        return str(self.concretise())

    def __format__(self, spec):
        return format(self.concretise(), spec)

    def __hash__(self):
        return hash(self.concretise())

    def is_integer(self):
        return True


class SymReal(Sym):
    __slots__ = ("nan",)
    dtype = np.dtype(np.float64)

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = nan

    def concretise(self):
        """Not exhaustive: pins the value to the model (recorded)."""
        if self.nan is not None and CTX.branch(self.nan):
            return float("nan")
        return CTX.path.pin_real(self.e)

    def __float__(self):
        return float(self.concretise())

    def __int__(self):
        return CTX.path.fork_value(_trunc(self.e))

    def __str__(self):
        return "<real>"

    def __format__(self, spec):
        return "<real>"

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))

    def __hash__(self):
        return hash(self.concretise())


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def nanflag(x):
    """z3 Bool / None / True for 'x is NaN'."""
    if isinstance(x, SymReal):
        return x.nan
    if isnanc(x):
        return True
    return None


def or_flag(*fs):
    fs = [f for f in fs if f is not None]
    if any(f is True for f in fs):
        return True
    if not fs:
        return None
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def expr_real(x):
    """z3 Real term for a finite number."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isnanc(x):
        return z3.RealVal(0)
    return zreal(x)


def expr_int(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def expr_bool(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def kind(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return "b"
    if isinstance(x, (SymInt, int, np.integer)):
        return "i"
    if isinstance(x, (SymReal, float, Fraction, np.floating)):
        return "f"
    return "O"


def truth(x):
    """SymBool of truthiness of any element."""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return SymBool(x.e != 0)
    if isinstance(x, SymReal):
        c = x.e != 0
        return SymBool(c if x.nan is None else z3.Or(x.nan, c))
    return bool(x)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkreal(e, nan=None):
    if nan is True:
        return float("nan")
    if nan is None and z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return f if f.denominator != 1 else float(f.numerator)
    return SymReal(e, nan)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def to_int_floor(x):
    if isinstance(x, SymReal):
        return SymInt(z3.ToInt(x.e))
    return x


def ite(c, a, b):
    """numeric if-then-else without forking (c: SymBool/bool)."""
    if not isinstance(c, Sym):
        return a if c else b
    c = truth(c)
    if a is b:
        return a
    if not (is_num(a) and is_num(b)) or isinfc(a) or isinfc(b):
        return a if bool(c) else b
    ka, kb = kind(a), kind(b)
    if ka == kb == "b":
        return mkbool(z3.If(c.e, expr_bool(a), expr_bool(b)))
    if "f" in (ka, kb):
        na, nb = nanflag(a), nanflag(b)
        nan = None
        if na is not None or nb is not None:
            za = z3.BoolVal(False) if na is None else (z3.BoolVal(True) if na is True else na)
            zb = z3.BoolVal(False) if nb is None else (z3.BoolVal(True) if nb is True else nb)
            nan = z3.simplify(z3.If(c.e, za, zb))
            if z3.is_false(nan):
                nan = None
        ra, rb = expr_real(a), expr_real(b)
        if na is True:
            ra = rb
        elif nb is True:
            rb = ra
        return mkreal(ra if ra.eq(rb) else z3.If(c.e, ra, rb), nan)
    return mkint(z3.If(c.e, expr_int(a), expr_int(b)))


def cast(x, dt):
    """Cast one element to a (virtual) dtype, as numpy assignment does."""
    k = dt.kind
    if k == "O":
        return x
    if k == "b":
        return truth(x)
    if k in "iu":
        if isinstance(x, SymInt) or (isinstance(x, (int, np.integer)) and not isinstance(x, bool)):
            return x if isinstance(x, Sym) else int(x)
        if isinstance(x, SymBool):
            return SymInt(expr_int(x))
        if isinstance(x, SymReal):
            if x.nan is not None and CTX.branch(x.nan):
                raise ValueError("cannot convert float NaN to integer")
            return SymInt(_trunc(x.e))
        if isnanc(x):
            raise ValueError("cannot convert float NaN to integer")
        if isinfc(x):
            raise OverflowError("cannot convert float infinity to integer")
        if isinstance(x, Fraction):
            return math.trunc(x)
        return int(x)
    if k in "f":
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(expr_real(x))
        if isinstance(x, Fraction):
            return x
        return float(x)
    if isinstance(x, Sym):
        x = x.concretise()
    return np.asarray(x).astype(dt)[()]


def scalar_out(x, vd):
    """What indexing a single element hands back to the code."""
    if isinstance(x, (Sym, Fraction)):
        if isinstance(x, Fraction):
            return np.float64(x) if not active() else SymReal(zreal(x))
        return x
    if vd is not None and vd.kind in "biuf" and isinstance(x, (bool, int, float)):
        return vd.type(x)
    return x


# ---- elementwise operations ------------------------------------------------

UFUN = {}


def uf(name, arity=1):
    if CTX.path is not None:
        CTX.path.uses_uf = True
    f = UFUN.get((name, arity))
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * arity), z3.RealSort())
        UFUN[(name, arity)] = f
    return f


def _arith(op, a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return None
    n = or_flag(nanflag(a), nanflag(b))
    if n is True:
        return float("nan")
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        if op == "add":
            return mkbool(z3.Or(expr_bool(a), expr_bool(b)))
        if op == "mul":
            return mkbool(z3.And(expr_bool(a), expr_bool(b)))
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    if ka in "bi" and kb in "bi":
        x, y = expr_int(a), expr_int(b)
        return mkint(z3.simplify(x + y if op == "add" else x - y if op == "sub" else x * y))
    if isinfc(a) or isinfc(b):
        if op in ("add", "sub"):
            if isinfc(a) and isinfc(b):
                return a + b if op == "add" else a - b
            return a if isinfc(a) else (b if op == "add" else -b)
        inf, o = (a, b) if isinfc(a) else (b, a)
        o_ = o
        if bool(_cmp("eq", o_, 0)):
            return float("nan")
        return inf if bool(_cmp("gt", o_, 0)) else -inf
    # constant shortcuts keep terms small (exact in the reals)
    if op == "mul":
        for u, v in ((a, b), (b, a)):
            if not isinstance(u, Sym):
                if rational(u) == 0 and n is None:
                    return 0.0
                if rational(u) == 1:
                    return v if isinstance(v, SymReal) else SymReal(expr_real(v), n)
    if op in ("add", "sub") and not isinstance(b, Sym) and rational(b) == 0:
        return a if isinstance(a, SymReal) else SymReal(expr_real(a), n)
    if op == "add" and not isinstance(a, Sym) and rational(a) == 0:
        return b if isinstance(b, SymReal) else SymReal(expr_real(b), n)
    x, y = expr_real(a), expr_real(b)
    return mkreal(x + y if op == "add" else x - y if op == "sub" else x * y, n)


def fr(x):
    """float -> exact Fraction when safe, to keep constant arithmetic exact"""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if x != x or x in (math.inf, -math.inf):
            return float(x)
        return rational(x)
    return x


def unfr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return float(x.numerator)
    return x


def op_add(a, b):
    r = _arith("add", a, b)
    if r is not None:
        return r
    if kind(a) == kind(b) == "b":
        return bool(a) or bool(b)
    return unfr(fr(a) + fr(b)) if is_num(a) and is_num(b) else a + b


def op_sub(a, b):
    r = _arith("sub", a, b)
    return r if r is not None else unfr(fr(a) - fr(b))


def op_mul(a, b):
    r = _arith("mul", a, b)
    if r is not None:
        return r
    if kind(a) == kind(b) == "b":
        return bool(a) and bool(b)
    return unfr(fr(a) * fr(b)) if is_num(a) and is_num(b) else a * b


def op_div(a, b):
    n = or_flag(nanflag(a), nanflag(b))
    if n is True:
        return float("nan")
    if not isinstance(b, Sym):
        if isinfc(b):
            return float("nan") if isinfc(a) else 0.0
        if rational(b) == 0:
            if bool(_cmp("eq", a, 0)):
                return float("nan")
            neg = math.copysign(1, float(b)) < 0
            return math.inf if bool(_cmp("gt", a, 0)) != neg else -math.inf
        if not isinstance(a, Sym):
            if isinfc(a):
                return a / float(b)
            q = rational(a) / rational(b)
            return unfr(q)
        if rational(b) == 1:
            return a if isinstance(a, SymReal) else SymReal(expr_real(a))
        return mkreal(expr_real(a) / zreal(b), n)
    if n is not None and CTX.branch(n):
        return float("nan")
    if bool(_cmp("eq", strip_nan(b), 0)):
        return op_div(strip_nan(a), 0.0)
    if isinfc(a):
        return a if bool(_cmp("gt", b, 0)) else -a
    if not isinstance(a, Sym) and rational(a) == 0:
        return 0.0
    return mkreal(expr_real(a) / expr_real(b))


def strip_nan(x):
    return SymReal(x.e) if isinstance(x, SymReal) and x.nan is not None else x


def op_floordiv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return unfr(Fraction(fr(a) // fr(b))) if kind(a) == "f" or kind(b) == "f" else int(a) // int(b)
    if kind(a) in "bi" and kind(b) in "bi":
        if isinstance(b, Sym):
            b = b.concretise()
        b = int(b)
        if b == 0:
            return 0
        if b < 0:
            return mkint(-expr_int(a) / (-b))
        return mkint(expr_int(a) / b)
    q = op_div(a, b)
    return UN["floor"](q)


def op_mod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return unfr(fr(a) % fr(b)) if kind(a) == "f" or kind(b) == "f" else int(a) % int(b)
    return op_sub(a, op_mul(b, op_floordiv(a, b)))


def op_pow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        fa, fb = fr(a), fr(b)
        if kind(b) == "f" and isinstance(fb, Fraction) and fb.denominator == 1:
            fb = int(fb)
        if isinstance(fb, int) and not isinstance(fa, float):
            if fb < 0 and fa == 0:
                return math.inf
            r = Fraction(fa) ** fb
            return unfr(r) if "f" in (kind(a), kind(b)) else int(r)
        return float(a) ** float(b)
    if isinstance(b, SymInt):
        b = b.concretise()
    if not isinstance(b, Sym):
        rb = rational(b)
        if rb == Fraction(1, 2):
            return UN["sqrt"](a)
        if rb.denominator == 1 and 0 <= rb <= 6:
            n = int(rb)
            if n == 0:
                return 1.0 if "f" in (kind(a), kind(b)) else 1
            r = a
            for _ in range(n - 1):
                r = op_mul(r, a)
            if kind(b) == "f":
                r = cast(r, np.dtype(float))
            return r
        if rb.denominator == 1 and -6 <= rb < 0:
            return op_div(1.0, op_pow(a, -int(rb)))
    return mkreal(uf("pow", 2)(expr_real(a), expr_real(b)), or_flag(nanflag(a), nanflag(b)))


_PY = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le,
       "gt": operator.gt, "ge": operator.ge}


def _cmp(op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if is_num(a) and is_num(b):
            fa, fb = fr(a), fr(b)
            return bool(_PY[op](fa, fb))
        r = _PY[op](a, b)
        return bool(r) if not isinstance(r, np.ndarray) else r
    if not (is_num(a) and is_num(b)):
        if op == "eq":
            return False
        if op == "ne":
            return True
        raise TypeError(f"'{op}' not supported between {type(a)} and {type(b)}")
    n = or_flag(nanflag(a), nanflag(b))
    if n is True:
        return op == "ne"
    if isinfc(a) or isinfc(b):
        fa = 0 if isinstance(a, Sym) else a
        fb = 0 if isinstance(b, Sym) else b
        c = z3.BoolVal(bool(_PY[op](fa, fb)))
    elif kind(a) == "b" and kind(b) == "b" and op in ("eq", "ne"):
        x, y = expr_bool(a), expr_bool(b)
        c = x == y if op == "eq" else x != y
    elif kind(a) in "bi" and kind(b) in "bi":
        c = _PY[op](expr_int(a), expr_int(b))
    elif kind(a) in "bi" and isinstance(a, Sym) and not isinstance(b, Sym) and rational(b).denominator == 1:
        c = _PY[op](expr_int(a), z3.IntVal(rational(b).numerator))
    elif kind(b) in "bi" and isinstance(b, Sym) and not isinstance(a, Sym) and rational(a).denominator == 1:
        c = _PY[op](z3.IntVal(rational(a).numerator), expr_int(b))
    else:
        c = _PY[op](expr_real(a), expr_real(b))
    if n is not None:
        c = z3.Or(n, c) if op == "ne" else z3.And(z3.Not(n), c)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e) and n is None:
        return op in ("eq", "le", "ge")
    return mkbool(c)


def _logic(op, a, b):
    a, b = truth(a), truth(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return (a and b) if op == "and" else (a or b) if op == "or" else a != b
    if op == "xor":
        return mkbool(z3.Xor(expr_bool(a), expr_bool(b)))
    for u, v in ((a, b), (b, a)):
        if not isinstance(u, Sym):
            if op == "and":
                return v if u else False
            return True if u else v
    return mkbool(z3.And(a.e, b.e) if op == "and" else z3.Or(a.e, b.e))


def _bitop(op):
    def f(a, b):
        if kind(a) == "b" and kind(b) == "b":
            return _logic(op, a, b)
        a = a.concretise() if isinstance(a, Sym) else a
        b = b.concretise() if isinstance(b, Sym) else b
        return {"and": operator.and_, "or": operator.or_, "xor": operator.xor}[op](int(a), int(b))
    return f


def op_max(a, b):
    if isnanc(a) or isnanc(b):
        return float("nan")
    n = or_flag(nanflag(a), nanflag(b))
    r = ite(_cmp("ge", strip_nan(a), strip_nan(b)), strip_nan(a), strip_nan(b))
    return SymReal(expr_real(r), n) if n is not None else r


def op_min(a, b):
    if isnanc(a) or isnanc(b):
        return float("nan")
    n = or_flag(nanflag(a), nanflag(b))
    r = ite(_cmp("le", strip_nan(a), strip_nan(b)), strip_nan(a), strip_nan(b))
    return SymReal(expr_real(r), n) if n is not None else r


BIN = {
    "add": op_add, "subtract": op_sub, "multiply": op_mul,
    "true_divide": op_div, "divide": op_div, "floor_divide": op_floordiv,
    "remainder": op_mod, "power": op_pow, "float_power": op_pow,
    "equal": lambda a, b: _cmp("eq", a, b), "not_equal": lambda a, b: _cmp("ne", a, b),
    "less": lambda a, b: _cmp("lt", a, b), "less_equal": lambda a, b: _cmp("le", a, b),
    "greater": lambda a, b: _cmp("gt", a, b), "greater_equal": lambda a, b: _cmp("ge", a, b),
    "logical_and": lambda a, b: _logic("and", a, b),
    "logical_or": lambda a, b: _logic("or", a, b),
    "logical_xor": lambda a, b: _logic("xor", a, b),
    "bitwise_and": _bitop("and"), "bitwise_or": _bitop("or"), "bitwise_xor": _bitop("xor"),
    "maximum": op_max, "minimum": op_min, "fmax": op_max, "fmin": op_min,
}


def _uf1(name, pyf, axiom=None):
    def f(x):
        if not isinstance(x, Sym):
            if isnanc(x):
                return float("nan")
            return pyf(float(x))
        n = nanflag(x)
        a = uf_arg(x)
        if z3.is_rational_value(a):
            v = pyf(a.numerator_as_long() / a.denominator_as_long())
            return v if n is None else mkreal(expr_real(v), n)
        e = uf(name)(a)
        if axiom is not None:
            CTX.path.axiom(axiom(e, a))
        return SymReal(e, n)
    return f


def uf_arg(x):
    """canonical argument, so that equal polynomials give one application"""
    e = expr_real(x)
    return z3.simplify(e, som=True) if len(e.sexpr()) < 4000 else e


def _neg(x):
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    if isinstance(x, SymInt):
        return SymInt(-x.e)
    if isinstance(x, SymReal):
        return SymReal(-x.e, x.nan)
    return -x


def _abs(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return ite(_cmp("ge", strip_nan(x), 0), x, _neg(x))
    return abs(x)


def _sign(x):
    if isinstance(x, Sym):
        z, o, m = (0.0, 1.0, -1.0) if kind(x) == "f" else (0, 1, -1)
        return ite(_cmp("gt", x, 0), o, ite(_cmp("lt", x, 0), m, z))
    return float(np.sign(float(x))) if kind(x) == "f" else int(np.sign(x))


def _not(x):
    t = truth(x)
    return SymBool(z3.Not(t.e)) if isinstance(t, Sym) else not t


def _invert(x):
    if kind(x) == "b":
        return _not(x)
    if isinstance(x, SymInt):
        return SymInt(-x.e - 1)
    return ~int(x)


def _isnan(x):
    n = nanflag(x)
    if n is None:
        return False
    return True if n is True else SymBool(n)


def _floor(x):
    if isinstance(x, SymReal):
        return SymReal(z3.ToReal(z3.ToInt(x.e)), x.nan)
    if isinstance(x, Sym) or kind(x) == "i":
        return x
    return float(math.floor(x)) if not (isnanc(x) or isinfc(x)) else x


def _rint(x):
    if isinstance(x, SymReal):
        f = z3.ToInt(x.e)
        d = x.e - z3.ToReal(f)
        h = z3.Q(1, 2)
        r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SymReal(z3.ToReal(r), x.nan)
    if isinstance(x, Sym) or kind(x) in "ib":
        return x
    return float(round(x)) if not (isnanc(x) or isinfc(x)) else x


def _sqrt(x):
    if not isinstance(x, Sym):
        if isnanc(x):
            return x
        f = fr(x)
        if isinstance(f, (int, Fraction)) and f >= 0:
            f = Fraction(f)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return unfr(Fraction(a, b))
        return math.sqrt(float(x)) if float(x) >= 0 else float("nan")
    ex = uf_arg(x)
    if z3.is_rational_value(ex) and nanflag(x) is None:
        return _sqrt(unfr(Fraction(ex.numerator_as_long(), ex.denominator_as_long())))
    e = uf("sqrt")(ex)
    CTX.path.axiom(z3.And(e >= 0, z3.Implies(ex > 0, e > 0), z3.Implies(ex == 0, e == 0)))
    if CTX.path.exact_sqrt:
        CTX.path.axiom(z3.Implies(ex >= 0, e * e == ex))
    return SymReal(e, nanflag(x))


UN = {
    "negative": _neg, "positive": lambda x: x, "absolute": _abs, "fabs": _abs,
    "sign": _sign, "logical_not": _not, "invert": _invert, "isnan": _isnan,
    "isfinite": lambda x: _not(_isnan(x)) if not isinfc(x) else False,
    "isinf": lambda x: isinfc(x),
    "floor": _floor, "ceil": lambda x: _neg(_floor(_neg(x))) if kind(x) != "b" else x,
    "trunc": lambda x: cast(cast(x, np.dtype(np.int64)), np.dtype(float)),
    "rint": _rint, "sqrt": _sqrt,
    "square": lambda x: op_mul(x, x),
    "reciprocal": lambda x: op_div(1.0, x),
    "conjugate": lambda x: x,
    "exp": _uf1("exp", math.exp, lambda e, x: z3.And(e > 0, z3.Implies(x == 0, e == 1))),
    "log": _uf1("log", lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
                None),
    "log2": _uf1("log2", lambda x: math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan)),
    "log10": _uf1("log10", lambda x: math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)),
    "log1p": _uf1("log1p", math.log1p),
    "expm1": _uf1("expm1", math.expm1),
    "tanh": _uf1("tanh", math.tanh),
    "sin": _uf1("sin", math.sin), "cos": _uf1("cos", math.cos),
}


def _bin(name, a, b):
    """Scalar operator entry (handles arrays/lists as numpy would)."""
    if is_tensor(a) or is_tensor(b):
        from . import tsym
        return tsym.dispatch_name(tsym.UFUNCS[name], (a, b), {})
    for o in (a, b):
        if isinstance(o, np.ndarray):
            return array_ufunc(getattr(np, name), "__call__", (a, b), {})
        if isinstance(o, (list, tuple)):
            return array_ufunc(getattr(np, name), "__call__", (a, b), {})
    if not (is_num(a) and is_num(b)):
        if name in ("equal", "not_equal"):
            return name == "not_equal"
        return NotImplemented
    return BIN[name](a, b)


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------

def infer_vd(objs):
    vd = None
    for x in objs:
        if isinstance(x, (SymBool, bool, np.bool_)):
            d = np.dtype(bool)
        elif isinstance(x, (SymInt,)):
            d = np.dtype(np.int64)
        elif isinstance(x, np.generic):
            d = x.dtype
        elif isinstance(x, int):
            d = np.dtype(np.int64)
        elif isinstance(x, (SymReal, float, Fraction)):
            d = np.dtype(np.float64)
        elif isinstance(x, str):
            d = np.array(x).dtype
        else:
            return np.dtype(object)
        vd = d if vd is None else np.result_type(vd, d)
    return vd if vd is not None else np.dtype(np.float64)


class _Flat:
    """ndarray.flat: a C-order view"""

    def __init__(self, a):
        self.a = a
        self.i = -1

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        if self.i >= self.a.size:
            raise StopIteration
        return self[self.i]

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        pos = np.arange(self.a.size)[k]
        tmp = self.a.flatten()
        tmp[pos] = v
        self.a[...] = tmp.reshape(self.a.shape)


class SymArray(np.ndarray):
    __array_priority__ = 900.0

    @staticmethod
    def wrap(obj, vd):
        a = np.asarray(obj, dtype=object).view(SymArray)
        a._vd = np.dtype(vd)
        return a

    @staticmethod
    def from_list(objs, vd=None):
        objs = list(objs)
        a = np.empty(len(objs), dtype=object)
        for i, o in enumerate(objs):
            a[i] = o
        return SymArray.wrap(a, infer_vd(objs) if vd is None else vd)

    def __array_finalize__(self, obj):
        self._vd = getattr(obj, "_vd", None) or np.dtype(object)

    @property
    def dtype(self):
        return self._vd

    @property
    def base_obj(self):
        return np.ndarray.view(self, np.ndarray)

    @property
    def itemsize(self):
        return self._vd.itemsize

    @property
    def nbytes(self):
        return self._vd.itemsize * self.size

    @property
    def T(self):
        return SymArray.wrap(self.base_obj.T, self._vd)

    @property
    def flat(self):
        return _Flat(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        return concretise(self)

    def __reduce__(self):
        if any(isinstance(x, Sym) for x in self.base_obj.ravel()):
            raise EngineLimit("pickling a symbolic array")
        return (np.asarray, (concretise(self),))

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return f"<SymArray shape={self.shape} dtype={self._vd}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # indexing ----------------------------------------------------------
    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError("only integers, slices ... are valid indices")
        idx = conv_index(idx)
        r = self.base_obj[idx]
        if isinstance(r, np.ndarray):
            return SymArray.wrap(r, self._vd)
        return scalar_out(r, self._vd)

    def __setitem__(self, idx, value):
        b = self.base_obj
        vals = to_obj(value)
        # masked scalar assignment without forking
        if isinstance(idx, SymArray) and idx._vd.kind == "b" and vals.ndim == 0 \
                and idx.shape == self.shape and self._vd.kind in "biuf":
            v = cast(vals[()], self._vd)
            it = np.ndindex(self.shape)
            ib = idx.base_obj
            for k in it:
                b[k] = ite(ib[k], v, b[k])
            return
        idx = conv_index(idx)
        if vals.ndim == 0:
            b[idx] = cast(vals[()], self._vd)
            return
        out = np.empty(vals.shape, dtype=object)
        for k in np.ndindex(vals.shape):
            out[k] = cast(vals[k], self._vd)
        b[idx] = out

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __bool__(self):
        if self.size == 1:
            return bool(self.base_obj.ravel()[0])
        if self.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(self.base_obj.ravel()[0])

    def __int__(self):
        return int(self.base_obj.ravel()[0])

    def __index__(self):
        if self.ndim or self._vd.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self.base_obj[()])

    # methods -----------------------------------------------------------
    def item(self, *a):
        return self.base_obj.item(*a) if a else self.base_obj.ravel()[0]

    def tolist(self):
        return self.base_obj.tolist()

    def copy(self, order="C"):
        return SymArray.wrap(self.base_obj.copy(), self._vd)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if not np.can_cast(self._vd, dt, casting):
            raise TypeError(f"Cannot cast array data from {self._vd} to {dt} according to '{casting}'")
        if dt == self._vd and not copy:
            return self
        if dt.kind in "US" and dt.itemsize == 0:
            c = concretise(self).astype(dt)
            return SymArray.wrap(c.astype(object), c.dtype)
        return SymArray.wrap(emap(lambda x: cast(x, dt), self.base_obj), dt)

    def view(self, *a, **k):
        if not a and not k:
            return SymArray.wrap(self.base_obj, self._vd)
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        raise EngineLimit("dtype view")

    def fill(self, v):
        self[...] = v

    def flatten(self, order="C"):
        return SymArray.wrap(self.base_obj.flatten(order), self._vd)

    def ravel(self, order="C"):
        return SymArray.wrap(self.base_obj.ravel(order), self._vd)

    def reshape(self, *shape, **k):
        shape = [tuple(int(t) for t in s) if isinstance(s, (tuple, list)) else int(s) for s in shape]
        return SymArray.wrap(self.base_obj.reshape(*shape, **k), self._vd)

    def transpose(self, *ax):
        return SymArray.wrap(self.base_obj.transpose(*ax), self._vd)

    def squeeze(self, axis=None):
        return SymArray.wrap(self.base_obj.squeeze(axis), self._vd)

    def swapaxes(self, a, b):
        return SymArray.wrap(self.base_obj.swapaxes(a, b), self._vd)

    def dot(self, o): return np.dot(self, o)
    def nonzero(self): return np.nonzero(self)
    def take(self, i, axis=None, **k): return np.take(self, i, axis=axis)
    def repeat(self, r, axis=None): return np.repeat(self, r, axis=axis)
    def clip(self, lo=None, hi=None, min=None, max=None, out=None, **k):
        return np.clip(self, min if lo is None else lo, max if hi is None else hi, out=out)

    def compress(self, condition, axis=None, out=None): return np.compress(condition, self, axis)

    def round(self, decimals=0): return np.round(self, decimals)
    def diagonal(self, *a, **k): return np.diagonal(self, *a, **k)

    def searchsorted(self, v, side="left", sorter=None): return np.searchsorted(self, v, side=side)

    def sort(self, axis=-1, **k):
        self.base_obj[...] = np.sort(self, axis=axis).base_obj


def _reduction(name):
    def m(self, *args, **kwargs):
        return getattr(np, name)(self, *args, **kwargs)
    m.__name__ = name
    return m


for _n in ("sum", "mean", "prod", "any", "all", "max", "min", "argmax", "argmin", "argsort", "std", "var", "cumsum", "trace"):
    setattr(SymArray, _n, _reduction(_n))


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if is_tensor(x):
        x = x._sym_a
    if isinstance(x, SymArray):
        return any(isinstance(v, Sym) for v in x.base_obj.ravel())
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "O" and any(isinstance(v, Sym) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def contains_symtype(x, depth=0):
    if isinstance(x, (Sym, SymArray)) or is_tensor(x):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(contains_symtype(v, depth + 1) for v in x)
    return False


def conv_index(idx):
    if isinstance(idx, tuple):
        return tuple(conv_index1(i) for i in idx)
    return conv_index1(idx)


def conv_index1(i):
    if is_tensor(i):
        i = i._sym_a
    if isinstance(i, SymArray):
        if i._vd.kind == "b":
            return np.array([bool(x) for x in i.base_obj.ravel()], dtype=bool).reshape(i.shape)
        if i._vd.kind in "iu" or (i.size == 0 and False):
            return np.array([operator.index(x) for x in i.base_obj.ravel()], dtype=np.intp).reshape(i.shape)
        if i._vd.kind == "O":
            vals = list(i.base_obj.ravel())
            if vals and all(kind(v) == "b" for v in vals):
                return np.array([bool(x) for x in vals], dtype=bool).reshape(i.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymInt):
        return operator.index(i)
    if isinstance(i, SymReal):
        raise IndexError("only integers, slices (`:`), ... are valid indices")
    if isinstance(i, slice):
        f = lambda v: operator.index(v) if v is not None else None
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list):
        if has_sym(i):
            return conv_index1(to_sym(i))
        return [conv_index1(v) if isinstance(v, (Sym, SymArray)) else v for v in i] if i else np.array([], dtype=np.intp)
    return i


def to_obj(x):
    """object ndarray (base class) of elements."""
    if is_tensor(x):
        return x._sym_a.base_obj
    if isinstance(x, SymArray):
        return x.base_obj
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biuf" or x.dtype.kind in "US":
            return x.astype(object)
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        if contains_symtype(x):
            return _nest(x)
        a = np.asarray(x)
        return a.astype(object)
    if hasattr(x, "__array__") and not isinstance(x, (np.generic,)):
        return to_obj(np.asarray(x))
    a = np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, np.generic) else x
    return a


def _nest(x):
    if isinstance(x, (list, tuple)):
        parts = [_nest(v) for v in x]
        shapes = {p.shape for p in parts}
        if len(shapes) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + (shapes.pop() if shapes else ()), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    return to_obj(x)


def vd_of(x):
    if is_tensor(x):
        return x._sym_a.dtype
    if isinstance(x, (SymArray, Sym)):
        return x.dtype
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (list, tuple)):
        if contains_symtype(x):
            vds = [vd_of(v) for v in x]
            return np.result_type(*vds) if vds else np.dtype(float)
        return np.asarray(x).dtype
    if isinstance(x, bool):
        return np.dtype(bool)
    if isinstance(x, int):
        return np.dtype(np.int64)
    if isinstance(x, (float, Fraction)):
        return np.dtype(np.float64)
    if isinstance(x, str):
        return np.asarray(x).dtype
    if hasattr(x, "dtype"):
        try:
            return np.dtype(x.dtype)
        except TypeError:
            pass
    return np.dtype(object)


def to_sym(x, dtype=None):
    if isinstance(x, SymArray) and dtype is None:
        return x
    o = to_obj(x)
    vd = vd_of(x)
    if vd.kind == "O" and not (isinstance(x, (SymArray, np.ndarray)) and vd_of(x).kind == "O"):
        vd = infer_vd(o.ravel())
    a = SymArray.wrap(o, vd)
    if dtype is not None and np.dtype(dtype) != vd:
        a = a.astype(dtype)
    return a


def emap(f, o):
    out = np.empty(o.shape, dtype=object)
    for k in np.ndindex(o.shape):
        out[k] = f(o[k])
    return out


def pyval(x):
    """concrete python value of an element (forks / pins)."""
    if isinstance(x, Sym):
        return x.concretise()
    if isinstance(x, Fraction):
        return float(x)
    return x


def concretise(a):
    """SymArray -> ordinary ndarray of its virtual dtype (forks / pins)."""
    if isinstance(a, SymArray):
        o = emap(pyval, a.base_obj)
        if a._vd.kind == "O":
            return o
        return o.astype(a._vd)
    return a


def deep_concretise(x):
    if isinstance(x, SymArray):
        return concretise(x)
    if isinstance(x, (Sym, Fraction)):
        return pyval(x)
    if isinstance(x, list):
        return [deep_concretise(v) for v in x]
    if isinstance(x, tuple):
        return tuple(deep_concretise(v) for v in x)
    if isinstance(x, dict):
        return {k: deep_concretise(v) for k, v in x.items()}
    return x


def deep_wrap(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "biuf":
        return to_sym(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(deep_wrap(v) for v in x)
    if isinstance(x, list):
        return [deep_wrap(v) for v in x]
    return x


_RD = {}


def ufunc_dtype(ufunc, ins):
    """Result dtype; python scalars are weak, as in NumPy 2."""
    key = (ufunc.__name__,) + tuple(ins)
    r = _RD.get(key)
    if r is None:
        args = []
        for d in ins:
            if d == "weak_i":
                args.append(1)
            elif d == "weak_f":
                args.append(1.0)
            elif d == "weak_b":
                args.append(True)
            else:
                args.append(np.ones(1, dtype=d))
        if not any(isinstance(a, np.ndarray) for a in args):
            args[0] = np.asarray(args[0])
        try:
            with np.errstate(all="ignore"):
                res = ufunc(*args)
            r = res.dtype if not isinstance(res, tuple) else res[0].dtype
        except Exception as exc:
            r = exc
        _RD[key] = r
    if isinstance(r, Exception):
        raise type(r)(*r.args) if not r.__class__.__name__.startswith("_") and \
            r.__class__.__name__ != "UFuncTypeError" else TypeError(str(r))
    return r


def _dkey(x):
    if isinstance(x, SymArray) or isinstance(x, np.ndarray):
        return vd_of(x)
    if isinstance(x, (Sym, np.generic)):
        return vd_of(x)
    if isinstance(x, bool):
        return "weak_b"
    if isinstance(x, int):
        return "weak_i"
    if isinstance(x, (float, Fraction)):
        return "weak_f"
    return vd_of(x)


UFUNC_FALLBACK = []


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.get("out")
    where = kwargs.get("where", True)
    if method == "__call__":
        if name == "matmul":
            r = matmul(*inputs)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        fn = (BIN if ufunc.nin == 2 else UN).get(name)
        masked = where is not True
        if fn is None or masked and not (out is not None and isinstance(out[0], SymArray)):
            return _ufunc_fallback(ufunc, method, inputs, kwargs)
        objs = [to_obj(x) for x in inputs]
        shape = np.broadcast_shapes(*[o.shape for o in objs])
        dkeys = [_dkey(x) for x in inputs]
        if any(isinstance(d, np.dtype) and d.kind in "OUS" for d in dkeys):
            vd = np.dtype(bool) if name in ("equal", "not_equal", "less", "less_equal", "greater",
                                            "greater_equal", "isnan") else np.dtype(object)
        else:
            vd = ufunc_dtype(ufunc, dkeys)
        if kwargs.get("dtype") is not None:
            vd = np.dtype(kwargs["dtype"])
        bs = [np.broadcast_to(o, shape) for o in objs]
        res = np.empty(shape, dtype=object)
        if len(bs) == 1:
            b0 = bs[0]
            for k in np.ndindex(shape):
                res[k] = fn(b0[k])
        else:
            b0, b1 = bs
            for k in np.ndindex(shape):
                res[k] = fn(b0[k], b1[k])
        if vd.kind == "f" and name not in ("isnan",):
            res = emap(lambda v: cast(v, vd) if not isinstance(v, (SymReal, float, Fraction)) else v, res)
        if out is not None:
            o = out[0]
            if isinstance(o, SymArray):
                if not np.can_cast(vd, o._vd, "same_kind"):
                    raise TypeError(f"Cannot cast ufunc '{name}' output from {vd} to {o._vd} with casting rule 'same_kind'")
                r = SymArray.wrap(res, vd)
                o[...] = np.where(where, r, o) if masked else r
                return o
            raise EngineLimit("in-place operation of a symbolic value into a plain ndarray")
        if shape == () and not any(isinstance(x, np.ndarray) and x.ndim == 0 for x in []):
            return scalar_out(res[()], vd)
        return SymArray.wrap(res, vd)
    if method == "reduce":
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        a = inputs[0]
        if isinstance(a, (list, tuple)) and any(isinstance(x, np.ndarray) for x in a):
            a = np.stack([to_sym(x) for x in a])
        a = to_sym(a)
        if kwargs.get("out") is not None or where is not True or kwargs.get("initial") is not None:
            raise EngineLimit(f"options of {name}.reduce")
        m = {"add": np.sum, "multiply": np.prod, "logical_or": np.any, "logical_and": np.all,
             "maximum": np.max, "minimum": np.min, "bitwise_or": np.any, "bitwise_and": np.all}.get(name)
        if m is not None:
            return array_function(m, (a,), {"axis": axis, "keepdims": keep} if keep else {"axis": axis})
    if method == "outer" and ufunc.nin == 2:
        a, b = to_sym(inputs[0]), to_sym(inputs[1])
        return ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at" and name in BIN:
        a, idx, vals = inputs[0], conv_index(inputs[1]), inputs[2] if len(inputs) > 2 else None
        ii = np.arange(a.shape[0])[idx]
        vb = np.broadcast_to(to_obj(vals), ii.shape + a.shape[1:])
        for j, i in enumerate(ii):
            a[int(i)] = BIN[name](a[int(i)], vb[j]) if a.ndim == 1 else ufunc(a[int(i)], SymArray.wrap(vb[j], vd_of(vals)))
        return None
    if method == "accumulate" and name in ("maximum", "minimum") and kwargs.get("axis", 0) == 0:
        a = to_sym(inputs[0]).copy()
        for i in range(1, a.shape[0]):
            a[i] = ufunc(a[i - 1], a[i])
        return a
    if method == "accumulate" and name == "add":
        return np.cumsum(to_sym(inputs[0]), axis=kwargs.get("axis", 0))
    return _ufunc_fallback(ufunc, method, inputs, kwargs)


def _ufunc_fallback(ufunc, method, inputs, kwargs):
    if any(has_sym(x) for x in inputs):
        CTX.path.note(f"concretised arguments of ufunc {ufunc.__name__}.{method}")
    ins = [deep_concretise(x) for x in inputs]
    kw = {k: deep_concretise(v) for k, v in kwargs.items() if k != "out"}
    r = deep_wrap(getattr(ufunc, method)(*ins, **kw))
    out = kwargs.get("out")
    if out is not None:
        out[0][...] = r
        return out[0]
    return r


def matmul(a, b):
    a, b = to_sym(a), to_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    vd = np.result_type(a.dtype, b.dtype)
    A, B = a.base_obj, b.base_obj
    if A.ndim > 2 or B.ndim > 2:
        bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A = np.broadcast_to(A, bs + A.shape[-2:])
        B = np.broadcast_to(B, bs + B.shape[-2:])
        out = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
        for k in np.ndindex(bs):
            out[k] = _mm(A[k], B[k], vd)
        return SymArray.wrap(out, vd)
    A2 = A.reshape(1, -1) if A.ndim == 1 else A
    B2 = B.reshape(-1, 1) if B.ndim == 1 else B
    R = _mm(A2, B2, vd)
    if A.ndim == 1 and B.ndim == 1:
        return scalar_out(R[0, 0], vd)
    if A.ndim == 1:
        R = R[0]
    elif B.ndim == 1:
        R = R[:, 0]
    return SymArray.wrap(R, vd)


def _mm(A, B, vd):
    if A.shape[1] != B.shape[0]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {B.shape[0]} is different from {A.shape[1]})")
    z = 0.0 if vd.kind == "f" else 0
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = z
            for k in range(A.shape[1]):
                s = op_add(s, op_mul(A[i, k], B[k, j]))
            out[i, j] = s
    return out


HANDLERS = {}
FALLBACK_OK = set()


def handles(*funcs):
    def deco(f):
        for fn in funcs:
            if fn is not None:
                HANDLERS[fn] = f
        return f
    return deco


def array_function(func, args, kwargs):
    h = HANDLERS.get(func)
    if h is not None:
        out = kwargs.get("out")
        if isinstance(out, np.ndarray):
            r = h(*args, **{q: v for q, v in kwargs.items() if q != "out"})
            if not isinstance(out, SymArray):
                raise EngineLimit("out= of a plain array")
            out[...] = r
            return out
        return h(*args, **kwargs)
    # generic: concretise (recorded) and run the real function
    if has_sym(list(args)) or has_sym(kwargs):
        CTX.path.note(f"concretised arguments of {getattr(func, '__name__', func)}")
    a = deep_concretise(tuple(args))
    k = deep_concretise(dict(kwargs))
    return deep_wrap(func(*a, **k))
