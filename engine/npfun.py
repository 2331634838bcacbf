"""Models of numpy functions over SymArray + the creation-function shims."""
import sys

import numpy as np
import z3

from . import sym as S
from .sym import (CTX, Sym, SymArray, SymBool, SymInt, SymReal, handles, ite, scalar_out,
                  to_obj, to_sym, vd_of)

NOVAL = np._NoValue


def _axes(axis, nd):
    if axis is None or axis is NOVAL:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer, SymInt)):
        axis = (int(axis),)
    return tuple(int(a) % nd if -nd <= int(a) < nd else _axerr(a, nd) for a in axis)


def _axerr(a, nd):
    raise np.exceptions.AxisError(int(a), nd)


def reduce_(a, fn, axis, keepdims, vd):
    """fn: list of elements -> element"""
    a = to_sym(a)
    o = a.base_obj
    if o.ndim == 0:
        return scalar_out(fn([o[()]]), vd)
    ax = _axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(rest + list(ax)).reshape([o.shape[i] for i in rest] + [-1]) \
        if o.size else o.transpose(rest + list(ax)).reshape(
            [o.shape[i] for i in rest] + [int(np.prod([o.shape[i] for i in ax]))])
    shape = tuple(o.shape[i] for i in rest)
    res = np.empty(shape, dtype=object)
    for k in np.ndindex(shape):
        res[k] = fn(list(t[k]))
    if keepdims and keepdims is not NOVAL:
        res = res.reshape([1 if i in ax else o.shape[i] for i in range(o.ndim)])
    if res.ndim == 0:
        return scalar_out(res[()], vd)
    return SymArray.wrap(res, vd)


def _sum_vd(vd):
    return np.dtype(np.int64) if vd.kind == "b" else np.zeros(1, vd).sum().dtype if vd.kind in "iuf" else vd


def _sumlist(vd):
    zero = 0.0 if vd.kind == "f" else 0

    def f(xs):
        s = zero
        for x in xs:
            s = S.op_add(s, x if S.kind(x) != "b" else S.cast(x, np.dtype(np.int64)))
        return s
    return f


def _no(k):
    """options that are not modelled"""
    for q, v in k.items():
        if v is not None and v is not NOVAL and v is not True:
            raise S.EngineLimit(f"option {q}")


@handles(np.sum)
def h_sum(a, axis=None, dtype=None, out=None, keepdims=NOVAL, initial=NOVAL, where=NOVAL):
    a = to_sym(a)
    if where is not NOVAL:
        a = h_where(where, a, 0)
    vd = _sum_vd(a.dtype) if dtype is None else np.dtype(dtype)
    r = reduce_(a, _sumlist(vd), axis, keepdims, vd)
    if initial is not NOVAL:
        r = r + initial
    return r


@handles(np.count_nonzero)
def h_cnz(a, axis=None, keepdims=False):
    return h_sum(SymArray.wrap(S.emap(S.truth, to_obj(a)), bool), axis=axis, keepdims=keepdims)


@handles(np.nanmean)
def h_nanmean(a, axis=None, **k):
    _no(k)
    a = to_sym(a)
    n = h_sum(np.where(np.isnan(a), 0, 1), axis=axis)
    if np.ndim(n) == 0:
        if bool(n == 0):
            return float("nan")
    elif bool(np.any(n == 0)):
        raise S.EngineLimit("nanmean of an all-nan slice")
    return h_nansum(a, axis=axis) / n


@handles(np.isneginf)
def h_isneginf(x, out=None):
    x = to_sym(x)
    return SymArray.wrap(np.vectorize(lambda v: S.isinfc(v) and v < 0, otypes=[object])(x.base_obj), bool)


@handles(np.isposinf)
def h_isposinf(x, out=None):
    x = to_sym(x)
    return SymArray.wrap(np.vectorize(lambda v: S.isinfc(v) and v > 0, otypes=[object])(x.base_obj), bool)


@handles(np.nansum)
def h_nansum(a, axis=None, **k):
    _no(k)
    a = to_sym(a)
    return h_sum(h_where(np.isnan(a), 0.0, a), axis=axis)


@handles(np.prod)
def h_prod(a, axis=None, dtype=None, out=None, keepdims=NOVAL, **k):
    _no(k)
    a = to_sym(a)

    def f(xs):
        s = 1.0 if a.dtype.kind == "f" else 1
        for x in xs:
            s = S.op_mul(s, x)
        return s
    return reduce_(a, f, axis, keepdims, _sum_vd(a.dtype))


def _meanvd(vd):
    return vd if vd.kind == "f" else np.dtype(float)


@handles(np.mean)
def h_mean(a, axis=None, dtype=None, out=None, keepdims=NOVAL, where=NOVAL):
    a = to_sym(a)
    vd = _meanvd(a.dtype)
    if where is not NOVAL:
        return h_sum(a, axis=axis, keepdims=keepdims, where=where) / h_sum(h_broadcast_to(where, a.shape) * 1, axis=axis, keepdims=keepdims)
    sl = _sumlist(np.dtype(float))

    def f(xs):
        if not xs:
            return float("nan")
        return S.op_div(sl(xs), float(len(xs)))
    return reduce_(a, f, axis, keepdims, vd)


@handles(np.average)
def h_average(a, axis=None, weights=None, returned=False, keepdims=NOVAL):
    a = to_sym(a)
    if weights is None:
        r = h_mean(a, axis=axis, keepdims=keepdims)
        return (r, float(a.size)) if returned else r
    w = to_sym(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1 or w.shape[0] != a.shape[axis]:
            raise ValueError("Shape of weights must be consistent")
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
        w = h_broadcast_to(w, a.shape)
    sc = h_sum(w, axis=axis, keepdims=keepdims)
    if bool(h_any(sc == 0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = h_sum(a * w, axis=axis, keepdims=keepdims) / sc
    return (r, sc) if returned else r


@handles(np.var)
def h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=NOVAL, **k):
    _no(k)
    a = to_sym(a)
    m = h_mean(a, axis=axis, keepdims=True)
    d = a - m
    ax = _axes(axis, a.ndim)
    n = int(np.prod([a.shape[i] for i in ax]))
    return h_sum(d * d, axis=axis, keepdims=keepdims) / (n - ddof)


@handles(np.std)
def h_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=NOVAL, **k):
    return np.sqrt(h_var(a, axis=axis, ddof=ddof, keepdims=keepdims, **k))


@handles(np.any)
def h_any(a, axis=None, out=None, keepdims=NOVAL, where=NOVAL):
    if where is not NOVAL:
        a = h_where(where, SymArray.wrap(S.emap(S.truth, to_obj(a)), bool), False)

    def f(xs):
        r = False
        for x in xs:
            r = S._logic("or", r, x)
        return r
    return reduce_(a, f, axis, keepdims, np.dtype(bool))


@handles(np.all)
def h_all(a, axis=None, out=None, keepdims=NOVAL, where=NOVAL):
    if where is not NOVAL:
        a = h_where(where, SymArray.wrap(S.emap(S.truth, to_obj(a)), bool), True)

    def f(xs):
        r = True
        for x in xs:
            r = S._logic("and", r, x)
        return r
    return reduce_(a, f, axis, keepdims, np.dtype(bool))


def _extreme(fn):
    def h(a, axis=None, out=None, keepdims=NOVAL, initial=NOVAL, where=NOVAL):
        a = to_sym(a)
        if where is not NOVAL:
            if initial is NOVAL:
                raise ValueError("reduction operation does not have an identity, so to use a where mask one has to specify 'initial'")
            a = h_where(where, a, initial)

        def f(xs):
            if not xs and initial is NOVAL:
                raise ValueError("zero-size array to reduction operation which has no identity")
            xs = xs if initial is NOVAL else [initial] + list(xs)
            s = xs[0]
            for x in xs[1:]:
                s = fn(s, x)
            return s
        return reduce_(a, f, axis, keepdims, a.dtype)
    return h


HM = S.HANDLERS
HM[np.max] = HM[np.amax] = _extreme(S.op_max)
HM[np.min] = HM[np.amin] = _extreme(S.op_min)


def _argext(op):
    def h(a, axis=None, out=None, keepdims=NOVAL):
        a = to_sym(a)

        def f(xs):
            if not xs:
                raise ValueError("attempt to get argmax of an empty sequence")
            for i, x in enumerate(xs):
                n = S.nanflag(x)
                if n is not None and (n is True or CTX.branch(n)):
                    return i
            b = 0
            for i in range(1, len(xs)):
                if bool(S._cmp(op, S.strip_nan(xs[i]), S.strip_nan(xs[b]))):
                    b = i
            return b
        return reduce_(a, f, axis, keepdims, np.dtype(np.int64))
    return h


HM[np.argmax] = _argext("gt")
HM[np.argmin] = _argext("lt")


def _less(x, y):
    """numpy sort order: NaN last"""
    nx, ny = S.nanflag(x), S.nanflag(y)
    if nx is not None and (nx is True or CTX.branch(nx)):
        return False
    if ny is not None and (ny is True or CTX.branch(ny)):
        return True
    return bool(S._cmp("lt", S.strip_nan(x), S.strip_nan(y)))


def sort_idx(xs):
    """stable insertion sort with solver-decided comparisons"""
    out = []
    for i, x in enumerate(xs):
        j = len(out)
        while j > 0 and _less(x, xs[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


@handles(np.argsort)
def h_argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = to_sym(a)
    o = a.base_obj
    if axis is None:
        o, axis = o.ravel(), 0
    return SymArray.wrap(np.apply_along_axis(lambda v: np.array(sort_idx(list(v)), dtype=object), axis, o)
                         if o.size else o, np.int64)


@handles(np.sort)
def h_sort(a, axis=-1, kind=None, order=None, stable=None):
    a = to_sym(a)
    o = a.base_obj
    if axis is None:
        o, axis = o.ravel(), 0

    def f(v):
        v = list(v)
        r = np.empty(len(v), dtype=object)
        for i, j in enumerate(sort_idx(v)):
            r[i] = v[j]
        return r
    if not o.size:
        return a.copy()
    t = np.moveaxis(o, axis, -1)
    res = np.empty(t.shape, dtype=object)
    for k in np.ndindex(t.shape[:-1]):
        res[k] = f(t[k])
    return SymArray.wrap(np.moveaxis(res, -1, axis), a.dtype)


def _eqv(x, y):
    """equality as used by np.unique (NaN == NaN)"""
    nx, ny = S.nanflag(x), S.nanflag(y)
    bx = nx is not None and (nx is True or CTX.branch(nx))
    by = ny is not None and (ny is True or CTX.branch(ny))
    if bx or by:
        return bx and by
    return bool(S._cmp("eq", S.strip_nan(x), S.strip_nan(y)))


@handles(np.unique)
def h_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None,
             *, equal_nan=True, sorted=True):
    a = to_sym(ar)
    if axis is not None:
        if a.ndim != 1:
            return _concr(np.unique, ar, return_index=return_index, return_inverse=return_inverse,
                          return_counts=return_counts, axis=axis)
    xs = list(a.base_obj.ravel())
    if a.dtype.kind in "OUS" and not any(isinstance(x, Sym) for x in xs):
        return S.deep_wrap_all(np.unique(S.concretise(a), return_index, return_inverse, return_counts))
    # insertion into sorted distinct groups, groups keep original indices
    groups = []
    for i, x in enumerate(xs):
        pos = 0
        placed = False
        while pos < len(groups):
            g = xs[groups[pos][0]]
            if _eqv(x, g):
                groups[pos].append(i)
                placed = True
                break
            if _less(x, g):
                break
            pos += 1
        if not placed:
            groups.insert(pos, [i])
    u = SymArray.from_list([xs[g[0]] for g in groups], a.dtype)
    out = [u]
    if return_index:
        out.append(SymArray.from_list([g[0] for g in groups], np.int64))
    if return_inverse:
        inv = np.empty(len(xs), dtype=object)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        out.append(SymArray.wrap(inv.reshape(a.shape), np.int64))
    if return_counts:
        out.append(SymArray.from_list([len(g) for g in groups], np.int64))
    return out[0] if len(out) == 1 else tuple(out)


def _deep_wrap_all(x):
    if isinstance(x, tuple):
        return tuple(_deep_wrap_all(v) for v in x)
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        return SymArray.wrap(x.astype(object), x.dtype)
    return x


S.deep_wrap_all = _deep_wrap_all


def _concr(func, *args, **kw):
    if S.has_sym(list(args)):
        CTX.path.note(f"concretised arguments of {func.__name__}")
    return _deep_wrap_all(func(*S.deep_concretise(tuple(args)), **S.deep_concretise(kw)))


@handles(np.nonzero)
def h_nonzero(a):
    o = to_obj(a)
    m = np.array([bool(S.truth(x)) for x in o.ravel()], dtype=bool).reshape(o.shape)
    return tuple(SymArray.wrap(i.astype(object), np.int64) for i in np.nonzero(m))


@handles(np.flatnonzero)
def h_flatnonzero(a):
    return h_nonzero(to_sym(a).ravel())[0]


@handles(np.argwhere)
def h_argwhere(a):
    return h_stack(h_nonzero(a), axis=1)


@handles(np.where)
def h_where(cond, x=None, y=None):
    if x is None and y is None:
        return h_nonzero(cond)
    c, a, b = to_obj(cond), to_obj(x), to_obj(y)
    shape = np.broadcast_shapes(c.shape, a.shape, b.shape)
    vd = S.ufunc_dtype(np.add, [S._dkey(x), S._dkey(y)]) if all(
        not isinstance(d, np.dtype) or d.kind in "iuf" for d in (S._dkey(x), S._dkey(y))) \
        else np.result_type(vd_of(x), vd_of(y))
    c, a, b = (np.broadcast_to(v, shape) for v in (c, a, b))
    res = np.empty(shape, dtype=object)
    for k in np.ndindex(shape):
        res[k] = S.cast(ite(S.truth(c[k]), a[k], b[k]), vd)
    return SymArray.wrap(res, vd)


@handles(np.isin, getattr(np, "in1d", None))
def h_isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    e, t = to_sym(element), list(to_obj(test_elements).ravel())

    def f(x):
        r = False
        for v in t:
            r = S._logic("or", r, S._cmp("eq", x, v))
        return S._not(r) if invert else r
    return SymArray.wrap(S.emap(f, e.base_obj), bool)


@handles(np.setdiff1d)
def h_setdiff1d(a, b, assume_unique=False):
    a = h_unique(a) if not assume_unique else to_sym(a).ravel()
    return a[h_isin(a, b, invert=True)]


@handles(np.intersect1d)
def h_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        return _concr(np.intersect1d, a, b, return_indices=True)
    a = h_unique(a)
    return a[h_isin(a, b)]


@handles(np.union1d)
def h_union1d(a, b):
    return h_unique(h_concatenate([to_sym(a).ravel(), to_sym(b).ravel()]))


@handles(np.array_equal)
def h_array_equal(a, b, equal_nan=False):
    a, b = to_sym(a), to_sym(b)
    if a.shape != b.shape:
        return False
    r = True
    for x, y in zip(a.base_obj.ravel(), b.base_obj.ravel()):
        r = S._logic("and", r, S._cmp("eq", x, y))
    return r


@handles(np.isclose)
def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_sym(a), to_sym(b)
    return abs(a - b) <= atol + rtol * abs(b)


@handles(np.allclose)
def h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return h_all(h_isclose(a, b, rtol, atol))


@handles(np.clip)
def h_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    _no(k)
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = to_sym(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@handles(np.nan_to_num)
def h_nan_to_num(x, copy=True, nan=0.0, **k):
    _no(k)
    x = to_sym(x)
    r = h_where(np.isnan(x), nan, x)
    if not copy:
        x[...] = r
        return x
    return r


@handles(np.round, getattr(np, "around", None))
def h_round(a, decimals=0, out=None):
    if decimals == 0:
        return np.rint(a)
    return np.rint(to_sym(a) * (10 ** decimals)) / (10 ** decimals)


@handles(np.isreal)
def h_isreal(a):
    return to_sym(a) == to_sym(a)


@handles(np.diff)
def h_diff(a, n=1, axis=-1, **k):
    _no(k)
    a = to_sym(a)
    sl = [slice(None)] * a.ndim
    s1, s0 = list(sl), list(sl)
    s1[axis], s0[axis] = slice(1, None), slice(None, -1)
    x, y = a[tuple(s1)], a[tuple(s0)]
    r = (x != y) if a.dtype.kind == "b" else x - y
    return r if n == 1 else h_diff(r, n - 1, axis)


@handles(np.cumsum)
def h_cumsum(a, axis=None, dtype=None, out=None):
    a = to_sym(a)
    o = a.base_obj.ravel() if axis is None else np.moveaxis(a.base_obj, axis, 0)
    vd = _sum_vd(a.dtype)
    res = np.empty(o.shape, dtype=object)
    acc = None
    for i in range(o.shape[0]):
        cur = SymArray.wrap(np.asarray(o[i], dtype=object), a.dtype).astype(vd)
        acc = cur if acc is None else acc + cur
        res[i] = to_obj(acc) if o.ndim > 1 else to_obj(acc)[()]
    return SymArray.wrap(res if axis is None else np.moveaxis(res, 0, axis), vd)


@handles(np.searchsorted)
def h_searchsorted(a, v, side="left", sorter=None):
    a = to_sym(a)
    xs = list(a.base_obj)

    def f(x):
        s = 0
        for y in xs:
            s = S.op_add(s, S.cast(S._cmp("lt" if side == "left" else "le", y, x), np.dtype(np.int64)))
        return s
    vo = to_obj(v)
    r = S.emap(f, vo)
    return scalar_out(r[()], np.dtype(np.int64)) if r.ndim == 0 else SymArray.wrap(r, np.int64)


@handles(np.bincount)
def h_bincount(x, weights=None, minlength=0):
    xs = list(to_obj(x))
    m = h_max0(xs)
    n = max(int(minlength), m + 1)
    w = [1] * len(xs) if weights is None else list(to_obj(weights))
    out = []
    for k in range(n):
        s = 0 if weights is None else 0.0
        for xi, wi in zip(xs, w):
            s = S.op_add(s, ite(S._cmp("eq", xi, k), wi, 0 if weights is None else 0.0))
        out.append(s)
    return SymArray.from_list(out, np.int64 if weights is None else np.float64)


def h_max0(xs):
    if not xs:
        return -1
    m = xs[0]
    for x in xs[1:]:
        m = S.op_max(m, x)
    return int(m)


@handles(np.dot)
def h_dot(a, b, out=None):
    a, b = to_sym(a), to_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return S.matmul(a, b)
    raise S.EngineLimit("dot nd")


@handles(np.matmul)
def h_matmul(a, b, **k):
    _no(k)
    return S.matmul(a, b)


@handles(np.vdot, np.inner)
def h_inner(a, b):
    a, b = to_sym(a), to_sym(b)
    if a.ndim == 1:
        return S.matmul(a, b)
    return S.matmul(a, b.T)


@handles(np.outer)
def h_outer(a, b, out=None):
    return np.multiply(to_sym(a).ravel().reshape(-1, 1), to_sym(b).ravel().reshape(1, -1))


@handles(np.trace)
def h_trace(a, offset=0, axis1=0, axis2=1, **k):
    a = to_sym(a)
    s = 0.0 if a.dtype.kind == "f" else 0
    if a.ndim != 2:
        raise S.EngineLimit("trace nd")
    for i in range(a.shape[0]):
        if 0 <= i + offset < a.shape[1]:
            s = S.op_add(s, a.base_obj[i, i + offset])
    return scalar_out(s, a.dtype)


@handles(np.linalg.norm)
def h_norm(x, ord=None, axis=None, keepdims=False):
    x = to_sym(x)
    if ord == 1 and (axis is not None or x.ndim == 1):
        return h_sum(abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf and (axis is not None or x.ndim == 1):
        return HM[np.max](abs(x), axis=axis, keepdims=keepdims)
    if ord in (None, "fro") or (ord == 2 and (x.ndim == 1 or axis is not None)):
        return np.sqrt(h_sum(x * x, axis=axis, keepdims=keepdims))
    return _concr(np.linalg.norm, x, ord=ord, axis=axis, keepdims=keepdims)


@handles(np.cov)
def h_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    _no(k)
    m = to_sym(m)
    if y is not None or fweights is not None or aweights is not None:
        return _concr(np.cov, m, y, rowvar, bias, ddof, fweights, aweights)
    X = m if rowvar else m.T
    if X.ndim == 1:
        X = X.reshape(1, -1)
    d = ddof if ddof is not None else (0 if bias else 1)
    n = X.shape[1]
    Xc = X - h_mean(X, axis=1, keepdims=True)
    return (S.matmul(Xc, Xc.T) / (n - d)).squeeze()


# ---- structural: element movement only -------------------------------------

def _movement(func):
    def h(*args, **kw):
        vd = [None]

        def conv(x, top=False):
            if isinstance(x, SymArray):
                vd[0] = x.dtype if vd[0] is None else vd[0]
                return x.base_obj
            return x
        a = [conv(x) for x in args]
        if len(a) > 1:
            a = [a[0]] + [_plainidx(x) for x in a[1:]]
        kw = {k: (conv(v) if k in ("a", "arr", "ary", "m") else _plainidx(v)) for k, v in kw.items()}
        if vd[0] is None:
            vd[0] = vd_of(args[0])
            a[0] = to_obj(a[0])
        r = func(*a, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(SymArray.wrap(x, vd[0]) for x in r)
        if not isinstance(r, np.ndarray):
            return scalar_out(r, vd[0])
        return SymArray.wrap(r, vd[0])
    return h


def _plainidx(x):
    if isinstance(x, (SymArray, Sym)):
        r = S.conv_index1(x) if not isinstance(x, SymReal) else x
        return r
    if isinstance(x, (list, tuple)):
        return type(x)(_plainidx(v) for v in x)
    return x


for _f in (np.reshape, np.ravel, np.transpose, np.squeeze, np.expand_dims, np.tile, np.repeat, np.take,
           np.split, np.array_split, np.flip, np.flipud, np.fliplr, np.roll, np.copy,
           np.moveaxis, np.swapaxes, np.diagonal, np.rot90, np.resize, np.hsplit, np.vsplit):
    HM[_f] = _movement(_f)


def _realidx(x):
    """the index argument as a plain numpy array (its symbolic entries are decided by forking)"""
    if isinstance(x, (slice, int)):
        return x
    x = _plainidx(to_sym(x) if isinstance(x, (list, tuple)) else x)
    if isinstance(x, np.ndarray):
        x = np.asarray(x)
        if x.dtype.kind == "O":
            x = x.astype(bool if x.size and isinstance(x.ravel()[0], (bool, np.bool_)) else np.intp)
    return x


@handles(np.delete)
def h_delete(arr, obj, axis=None):
    a = to_sym(arr)
    return SymArray.wrap(np.delete(a.base_obj, _realidx(obj), axis), a.dtype)


@handles(np.compress)
def h_compress(condition, a, axis=None, out=None):
    a = to_sym(a)
    c = np.asarray(_realidx(to_sym(condition) != 0))
    if c.dtype.kind != "b":  # the positions that hold
        c = np.isin(np.arange(len(to_obj(condition))), c)
    return SymArray.wrap(np.compress(c, a.base_obj, axis), a.dtype)


@handles(np.extract)
def h_extract(condition, arr):
    return to_sym(arr).ravel()[to_sym(condition).ravel().astype(bool)]


@handles(np.take_along_axis)
def h_take_along_axis(arr, indices, axis=-1):
    a = to_sym(arr)
    return SymArray.wrap(np.take_along_axis(a.base_obj, _realidx(indices), axis), a.dtype)


@handles(np.put_along_axis)
def h_put_along_axis(arr, indices, values, axis):
    ind = np.asarray(_realidx(indices))
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    v = np.broadcast_to(to_obj(values), ind.shape)
    for k in np.ndindex(ind.shape):
        q = list(k)
        q[axis] = int(ind[k])
        arr[tuple(q)] = v[k]


@handles(np.putmask)
def h_putmask(a, mask, values):
    v = to_obj(values).ravel()
    m = to_obj(mask).ravel()
    for j, k in enumerate(np.ndindex(a.shape)):
        if bool(m[j]):
            a[k] = v[j % len(v)]


@handles(np.place)
def h_place(arr, mask, vals):
    v = to_obj(vals).ravel()
    m = to_obj(mask).ravel()
    n = 0
    for j, k in enumerate(np.ndindex(arr.shape)):
        if bool(m[j]):
            arr[k] = v[n % len(v)]
            n += 1


@handles(np.broadcast_to)
def h_broadcast_to(a, shape, subok=False):
    a = to_sym(a)
    return SymArray.wrap(np.broadcast_to(a.base_obj, shape).copy(), a.dtype)


@handles(np.broadcast_arrays)
def h_broadcast_arrays(*args, subok=False):
    args = [to_sym(a) for a in args]
    shape = np.broadcast_shapes(*[a.shape for a in args])
    return [h_broadcast_to(a, shape) for a in args]


@handles(np.diag)
def h_diag(v, k=0):
    v = to_sym(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        o = np.full((n, n), 0.0 if v.dtype.kind == "f" else 0, dtype=object)
        for i, x in enumerate(v.base_obj):
            o[i + max(0, -k), i + max(0, k)] = x
        return SymArray.wrap(o, v.dtype)
    return SymArray.wrap(np.diag(v.base_obj, k), v.dtype)


def _tri(keep):
    def h(m, k=0):
        m = to_sym(m)
        o = m.base_obj.copy()
        z = 0.0 if m.dtype.kind == "f" else False if m.dtype.kind == "b" else 0
        for q in np.ndindex(o.shape):
            if not keep(q[-1] - q[-2], k):
                o[q] = z
        return SymArray.wrap(o, m.dtype)
    return h


HM[np.tril] = _tri(lambda d, k: d <= k)
HM[np.triu] = _tri(lambda d, k: d >= k)


def _concatlike(func):
    def h(arrays, *args, **kw):
        kw.pop("dtype", None)
        arrays = list(arrays)
        vd = np.result_type(*[vd_of(a) for a in arrays])
        objs = [to_obj(a) for a in arrays]
        r = func(objs, *args, **kw)
        a = SymArray.wrap(r, vd)
        if vd.kind == "f" and any(vd_of(x).kind != "f" for x in arrays):
            a = a.astype(vd)
        return a
    return h


def _block(arrays):
    def go(x, depth):
        if isinstance(x, list):
            parts = [go(v, depth - 1) for v in x]
            return np.concatenate(parts, axis=-depth)
        x = to_sym(x)
        return x if x.ndim >= total else x.reshape((1,) * (total - x.ndim) + x.shape)

    def levels(x):
        return 1 + levels(x[0]) if isinstance(x, list) else 0

    def ndim(x):
        return max(map(ndim, x)) if isinstance(x, list) else np.ndim(x)
    total = max(levels(arrays), ndim(arrays))
    return go(arrays, levels(arrays))


HM[np.block] = _block


for _f in (np.concatenate, np.vstack, np.hstack, np.stack, np.column_stack, np.dstack):
    HM[_f] = _concatlike(_f)
if hasattr(np, "row_stack"):
    HM[np.vstack] = _concatlike(np.vstack)
h_concatenate = HM[np.concatenate]
h_stack = HM[np.stack]


@handles(np.append)
def h_append(arr, values, axis=None):
    if axis is None:
        return h_concatenate([to_sym(arr).ravel(), to_sym(values).ravel()])
    return h_concatenate([to_sym(arr), to_sym(values)], axis)


@handles(np.insert)
def h_insert(arr, obj, values, axis=None):
    arr = to_sym(arr)
    return SymArray.wrap(np.insert(arr.base_obj, _plainidx(obj), to_obj(values), axis), arr.dtype)


@handles(np.pad)
def h_pad(array, pad_width, mode="constant", **kw):
    a = to_sym(array)
    if mode != "constant":
        return _concr(np.pad, a, pad_width, mode, **kw)
    kw.setdefault("constant_values", 0.0 if a.dtype.kind == "f" else 0)
    return SymArray.wrap(np.pad(a.base_obj, pad_width, mode, **kw), a.dtype)


@handles(np.atleast_1d)
def h_atleast_1d(*arys):
    r = [to_sym(a) if to_sym(a).ndim else to_sym(a).reshape(1) for a in arys]
    return r[0] if len(r) == 1 else r


@handles(np.atleast_2d)
def h_atleast_2d(*arys):
    r = []
    for a in arys:
        a = to_sym(a)
        r.append(a if a.ndim >= 2 else a.reshape(1, -1))
    return r[0] if len(r) == 1 else r


@handles(np.shape)
def h_shape(a):
    return to_obj(a).shape


@handles(np.ndim)
def h_ndim(a):
    return to_obj(a).ndim


@handles(np.size)
def h_size(a, axis=None):
    o = to_obj(a)
    return o.size if axis is None else o.shape[axis]


@handles(np.result_type)
def h_result_type(*args):
    return np.result_type(*[vd_of(a) if isinstance(a, (np.ndarray, Sym)) else a for a in args])


@handles(np.can_cast)
def h_can_cast(f, to, casting="safe"):
    return np.can_cast(vd_of(f) if isinstance(f, (np.ndarray, Sym)) else f, to, casting)


@handles(np.min_scalar_type)
def h_mst(a):
    return vd_of(a)


@handles(np.may_share_memory, np.shares_memory)
def h_share(a, b, **k):
    return np.may_share_memory(to_obj(a), to_obj(b))


@handles(np.iscomplexobj)
def h_iscomplex(x):
    return False


@handles(np.copyto)
def h_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = h_where(where, src, dst)


@handles(np.put)
def h_put(a, ind, v, mode="raise"):
    a.reshape(-1)[ind] = v


@handles(np.fill_diagonal)
def h_fill_diagonal(a, val, wrap=False):
    if not isinstance(a, SymArray) or a.ndim != 2 or wrap and a.shape[0] > a.shape[1]:
        raise S.EngineLimit("fill_diagonal")
    vals = list(to_sym(val).base_obj.ravel()) if np.ndim(val) else [val]
    for i in range(min(a.shape)):
        a[i, i] = vals[i % len(vals)]


@handles(np.einsum)
def h_einsum(sub, *ops, **k):
    ops = [to_sym(o) for o in ops]
    ins, _, outs = sub.replace(" ", "").partition("->")
    terms = ins.split(",")
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dims[c] = max(dims.get(c, 1), n)
    if "->" not in sub:
        outs = "".join(sorted(c for c in set(ins) if c.isalpha() and ins.count(c) == 1))
    red = [c for c in dims if c not in outs]
    vd = np.result_type(*[o.dtype for o in ops])
    res = np.empty([dims[c] for c in outs], dtype=object)
    for ko in np.ndindex(res.shape):
        s = 0.0 if vd.kind == "f" else 0
        for kr in np.ndindex(tuple(dims[c] for c in red)):
            env = dict(zip(outs, ko), **dict(zip(red, kr)))
            p = None
            for t, o in zip(terms, ops):
                x = o.base_obj[tuple(env[c] for c in t)]
                p = x if p is None else S.op_mul(p, x)
            s = S.op_add(s, p)
        res[ko] = s
    return scalar_out(res[()], vd) if res.ndim == 0 else SymArray.wrap(res, vd)


@handles(np.apply_along_axis)
def h_aaa(func1d, axis, arr, *args, **kw):
    a = to_sym(arr)
    t = np.moveaxis(a.base_obj, axis, -1)
    outs = {}
    for k in np.ndindex(t.shape[:-1]):
        outs[k] = to_obj(func1d(SymArray.wrap(t[k], a.dtype), *args, **kw))
    first = next(iter(outs.values()))
    res = np.empty(t.shape[:-1] + first.shape, dtype=object)
    for k, v in outs.items():
        res[k] = v if v.ndim else v[()]
    r = np.moveaxis(res, -1, axis) if first.ndim else res
    return SymArray.wrap(r, S.infer_vd(r.ravel()))


@handles(np.zeros_like, np.ones_like, np.empty_like, np.full_like)
def h_like(*a, **k):
    raise S.EngineLimit("like")


def _like(val):
    def h(a, dtype=None, order="K", subok=True, shape=None, **k):
        vd = vd_of(a) if dtype is None else np.dtype(dtype)
        sh = to_obj(a).shape if shape is None else shape
        return _filled(sh, val, vd)
    return h


def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    vd = vd_of(a) if dtype is None else np.dtype(dtype)
    r = SymArray.wrap(np.empty(to_obj(a).shape if shape is None else shape, dtype=object), vd)
    r[...] = fill_value
    return r


HM[np.zeros_like] = _like(0)
HM[np.ones_like] = _like(1)
HM[np.empty_like] = _like(0)
HM[np.full_like] = _full_like


def _filled(shape, val, vd):
    vd = np.dtype(vd)
    shape = _plainidx(shape)
    if vd.kind == "f":
        val = float(val)
    elif vd.kind == "b":
        val = bool(val)
    elif vd.kind in "US":
        val = np.zeros((), dtype=vd)[()]
    elif vd.kind == "O":
        val = None if val == 0 else val
    o = np.empty(shape, dtype=object)
    o[...] = val
    return SymArray.wrap(o, vd)


# ---- creation shims -----------------------------------------------------------

_ORIG = {}
PREFIXES = ("skada", "harness")


def _flat_syms(a):
    return any(isinstance(x, S.Sym) or isinstance(x, (list, tuple)) and _flat_syms(x) for x in a)


def _gate():
    if CTX.path is None:
        return False
    g = sys._getframe(2).f_globals.get("__name__", "")
    return g.startswith(PREFIXES)


def install():
    """Replace numpy creation functions by gated wrappers (idempotent)."""
    if _ORIG:
        return
    for n in ("zeros", "ones", "empty", "full", "eye", "identity", "arange", "linspace", "array",
              "asarray", "asanyarray", "ascontiguousarray", "tri", "indices", "fromiter", "ix_",
              "meshgrid", "asarray_chkfinite"):
        if hasattr(np, n):
            _ORIG[n] = getattr(np, n)
    O = _ORIG

    def creation(name):
        orig = O[name]

        def f(*a, **k):
            if not _gate():
                return orig(*a, **k)
            r = orig(*[_plainidx(x) if not isinstance(x, SymReal) else float(x) for x in a],
                     **{kk: _plainidx(v) for kk, v in k.items()})
            return _deep_wrap_all(r)
        f.__name__ = name
        f.__wrapped__ = orig
        return f

    for n in ("zeros", "ones", "empty", "eye", "identity", "arange", "linspace", "tri", "indices"):
        if n in O:
            setattr(np, n, creation(n))

    def listarg(name):
        orig = getattr(np, name)

        def f(a, *args, **k):
            if CTX.path is not None and isinstance(a, (list, tuple)) and _flat_syms(a):
                a = to_sym(a)
            return orig(a, *args, **k)
        f.__name__ = name
        f.__wrapped__ = orig
        setattr(np, name, f)

    for n in ("mean", "sum", "argmax", "argmin", "max", "min", "amax", "amin", "argsort", "sort", "any", "all",
              "median", "std", "var", "prod", "cumsum", "unique", "isnan", "log", "exp", "abs", "square", "sqrt",
              "nanmean", "nansum"):
        if isinstance(getattr(np, n), np.ufunc):
            continue
        listarg(n)

    def full(shape, fill_value, dtype=None, order="C", **k):
        if CTX.path is None or not (_gate() or S.has_sym(fill_value)):
            return O["full"](shape, fill_value, dtype, order, **k)
        vd = np.dtype(dtype) if dtype is not None else vd_of(fill_value)
        r = SymArray.wrap(O["empty"](_plainidx(shape), dtype=object), vd)
        r[...] = fill_value
        return r
    np.full = full

    def conv(name, copy_default):
        orig = O[name]

        def f(obj, dtype=None, *args, **k):
            if CTX.path is None or not (_gate() or S.contains_symtype(obj)):
                return orig(obj, dtype, *args, **k) if dtype is not None or args or k else orig(obj)
            if dtype is None and not S.contains_symtype(obj) and not isinstance(obj, np.ndarray):
                r = orig(obj, *([None] if args else []), *args, **k)
                if r.dtype.kind == "O":
                    return r
                r = to_sym(r)
            elif isinstance(obj, np.ndarray) and obj.dtype.kind == "O" and not isinstance(obj, SymArray):
                r = orig(obj, dtype, **k)
                return r
            else:
                r = to_sym(obj, dtype)
            copy = k.get("copy", copy_default)
            if isinstance(copy, np._CopyMode):
                copy = copy == np._CopyMode.ALWAYS
            if copy and isinstance(obj, SymArray):
                r = r.copy()
            nd = k.get("ndmin", 0)
            if nd > r.ndim:
                r = r.reshape((1,) * (nd - r.ndim) + r.shape)
            return r
        f.__name__ = name
        f.__wrapped__ = orig
        return f

    np.array = conv("array", True)
    for n in ("asarray", "asanyarray", "ascontiguousarray", "asarray_chkfinite"):
        setattr(np, n, conv(n, False))

    def fromiter(it, dtype, count=-1, **k):
        if not _gate():
            return O["fromiter"](it, dtype, count, **k)
        return to_sym(list(it), dtype)
    np.fromiter = fromiter

    def ix_(*args):
        if CTX.path is None or not S.contains_symtype(args):
            return O["ix_"](*args)
        return O["ix_"](*[S.conv_index1(a) if isinstance(a, SymArray) else a for a in args])
    np.ix_ = ix_

    def meshgrid(*xi, **k):
        if CTX.path is None or not S.contains_symtype(xi):
            return O["meshgrid"](*xi, **k)
        return [SymArray.wrap(r, vd_of(x)) for r, x in zip(O["meshgrid"](*[to_obj(x) for x in xi], **k), xi)]
    np.meshgrid = meshgrid
    _ORIG["ndenumerate"] = np.ndenumerate
    np.vectorize, np.ndenumerate = _Vectorize, _ndenumerate


class _Vectorize(np.vectorize):
    """np.vectorize over symbolic arrays: element by element"""

    def __call__(self, *args, **kw):
        if CTX.path is None or kw or self.signature or not S.contains_symtype(list(args)):
            return super().__call__(*args, **kw)
        objs = [to_obj(a) for a in args]
        shape = np.broadcast_shapes(*[o.shape for o in objs])
        bs = [np.broadcast_to(o, shape) for o in objs]
        res = _ORIG["empty"](shape, dtype=object)
        for k in np.ndindex(shape):
            res[k] = self.pyfunc(*[b[k] for b in bs])
        vd = np.dtype(self.otypes[0]) if self.otypes else S.infer_vd(res.ravel())
        return SymArray.wrap(res, vd)


def _ndenumerate(arr):
    if not isinstance(arr, SymArray):
        yield from _ORIG["ndenumerate"](arr)
        return
    for k in np.ndindex(arr.shape):
        yield k, arr[k]


# ---- small exact linear algebra ----------------------------------------------

def _det(o):
    n = o.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return o[0, 0]
    if n > 4:
        raise S.EngineLimit("determinant larger than 4x4")
    r = 0.0
    for j in range(n):
        m = np.delete(np.delete(o, 0, 0), j, 1)
        t = S.op_mul(o[0, j], _det(m))
        r = S.op_add(r, t) if j % 2 == 0 else S.op_sub(r, t)
    return r


@handles(np.linalg.det)
def h_det(a):
    a = to_sym(a)
    return scalar_out(_det(a.base_obj), np.dtype(float))


@handles(np.linalg.inv)
def h_inv(a):
    a = to_sym(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    o = a.base_obj
    n = o.shape[0]
    d = _det(o)
    if bool(S._cmp("eq", d, 0)):
        raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = _det(np.delete(np.delete(o, j, 0), i, 1)) if n > 1 else 1.0
            if (i + j) % 2:
                m = S.op_sub(0.0, m)
            r[i, j] = S.op_div(m, d)
    return SymArray.wrap(r, np.dtype(float))


@handles(np.linalg.solve)
def h_solve(a, b):
    return S.matmul(h_inv(a), to_sym(b))
