"""torch tensors holding symbolic values.

``SymTensor`` is a real ``torch.Tensor`` subclass (so isinstance tests, modules,
data loaders and collate functions of torch and skorch work on it) whose storage
is only a shape/dtype carrier; the values live in ``_sym_a`` (a SymArray).  Every
torch operation on it arrives in ``__torch_function__`` and is evaluated by the
models below; an operation without a model runs on the real tensor when all its
values are concrete and is an EngineLimit otherwise.
"""
import collections
import math
import operator
import sys

import numpy as np
import torch

from . import npfun  # noqa: F401
from . import sym as S
from .sym import CTX, EngineLimit, Sym, SymArray, to_sym

T_OF = {np.dtype(bool): torch.bool, np.dtype(np.int64): torch.int64, np.dtype(np.int32): torch.int32,
        np.dtype(np.int16): torch.int16, np.dtype(np.int8): torch.int8, np.dtype(np.uint8): torch.uint8,
        np.dtype(np.float32): torch.float32, np.dtype(np.float64): torch.float64, np.dtype(np.float16): torch.float16}
N_OF = {v: k for k, v in T_OF.items()}
_EMPTY = torch.empty
_META = {}
OPS = {}
_O = {}


def ops(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def ndt(dtype):
    if dtype is None:
        return None
    return N_OF[dtype] if isinstance(dtype, torch.dtype) else np.dtype(dtype)


class SymTensor(torch.Tensor):
    @staticmethod
    def make(a):
        if not isinstance(a, SymArray):
            a = to_sym(a)
        td = T_OF.get(a.dtype)
        if td is None:
            raise EngineLimit(f"tensor of dtype {a.dtype}")
        t = torch.Tensor._make_subclass(SymTensor, _EMPTY(tuple(a.shape), dtype=td))
        t._sym_a = a
        return t

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # conversions --------------------------------------------------------
    def _only(self):
        if self._sym_a.size != 1:
            raise RuntimeError(f"a Tensor with {self._sym_a.size} elements cannot be converted to Scalar")
        return self._sym_a.base_obj.ravel()[0]

    def __bool__(self):
        if self._sym_a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(S.truth(self._only()))

    def __int__(self):
        return int(self._only())

    def __float__(self):
        return float(self._only())

    def __index__(self):
        if self.dtype.is_floating_point:
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return operator.index(S.cast(self._only(), np.dtype(np.int64)))

    def __format__(self, spec):
        return repr(self)

    def __repr__(self, *a, **k):
        return f"<SymTensor {tuple(self._sym_a.shape)} {self._sym_a.dtype}>"

    __str__ = __repr__

    def __len__(self):
        if self._sym_a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return len(self._sym_a)

    def __iter__(self):
        if self._sym_a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([wrap(self._sym_a[i]) for i in range(len(self._sym_a))])

    def __hash__(self):
        return id(self)

    def __contains__(self, x):
        return bool(np.any(self._sym_a == A(x)))

    def item(self):
        return self._only()

    def tolist(self):
        return self._sym_a.tolist()

    def numpy(self, **k):
        return self._sym_a

    def __array__(self, dtype=None, copy=None):
        return S.concretise(self._sym_a)

    def __array_function__(self, func, types, args, kwargs):
        return func(*_np(args), **_np(kwargs))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return S.array_ufunc(ufunc, method, _np(inputs), _np(kwargs))

    def __deepcopy__(self, memo):
        return SymTensor.make(self._sym_a.copy())

    def __reduce_ex__(self, proto):
        raise EngineLimit("pickling a symbolic tensor")

    def backward(self, *a, **k):
        return None

    def copy(self):
        return SymTensor.make(self._sym_a.copy())


def _np(x):
    if isinstance(x, SymTensor):
        return x._sym_a
    if isinstance(x, (tuple, list)):
        return type(x)(_np(v) for v in x)
    if isinstance(x, dict):
        return {k: _np(v) for k, v in x.items()}
    return x


def _install_dunders():
    def binop(name, op, swap):
        def f(self, o):
            if isinstance(o, np.ndarray) and not isinstance(o, SymArray):
                o = to_sym(o)
            a = (o, self) if swap else (self, o)
            return dispatch_name(op, a, {})
        setattr(SymTensor, name, f)
    for n, op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("floordiv", "floor_divide"),
                  ("mod", "remainder"), ("pow", "pow"), ("matmul", "matmul"), ("and", "bitwise_and"),
                  ("or", "bitwise_or"), ("xor", "bitwise_xor")):
        binop(f"__{n}__", op, False)
        binop(f"__r{n}__", op, True)
    for n in ("eq", "ne", "lt", "le", "gt", "ge"):
        binop(f"__{n}__", n, False)
    for n, op in (("iadd", "add_"), ("isub", "sub_"), ("imul", "mul_"), ("itruediv", "div_"), ("iand", "bitwise_and_"),
                  ("ior", "bitwise_or_"), ("ipow", "pow_")):
        binop(f"__{n}__", op, False)
    for n, op in (("neg", "neg"), ("abs", "abs"), ("invert", "bitwise_not"), ("pos", "positive")):
        setattr(SymTensor, f"__{n}__", lambda self, op=op: dispatch_name(op, (self,), {}))
    SymTensor.__getitem__ = lambda self, k: dispatch_name("__getitem__", (self, k), {})
    SymTensor.__setitem__ = lambda self, k, v: dispatch_name("__setitem__", (self, k, v), {})
    SymTensor.__hash__ = lambda self: id(self)


UFUNCS = {"add": "add", "subtract": "sub", "multiply": "mul", "true_divide": "div", "divide": "div", "floor_divide": "floor_divide",
          "remainder": "remainder", "power": "pow", "bitwise_and": "bitwise_and", "bitwise_or": "bitwise_or",
          "bitwise_xor": "bitwise_xor", "equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt",
          "greater_equal": "ge"}


# ---- helpers ------------------------------------------------------------

def under(x):
    """plain tensor carrying only shape and dtype (or a python scalar)"""
    if isinstance(x, SymTensor):
        with torch._C.DisableTorchFunctionSubclass():
            return x.detach().as_subclass(torch.Tensor)
    if isinstance(x, Sym):
        return {"b": True, "i": 1, "f": 1.0}[S.kind(x)]
    if isinstance(x, np.ndarray):
        return _EMPTY(tuple(x.shape), dtype=T_OF[S.vd_of(x)])
    if S.is_num(x) and not isinstance(x, (bool, int, float)):
        return float(x) if S.kind(x) == "f" else int(x)
    return x


def A(x):
    """SymArray (or scalar) of a tensor"""
    if isinstance(x, SymTensor):
        return x._sym_a
    if isinstance(x, torch.Tensor):
        with torch._C.DisableTorchFunctionSubclass():
            return to_sym(x.detach().cpu().numpy())
    return x


def O(x):
    return S.to_obj(A(x))


def wrap(x, dtype=None):
    a = to_sym(x)
    d = ndt(dtype)
    if d is not None and a.dtype != d:
        a = SymArray.wrap(S.emap(lambda v: S.cast(v, d), a.base_obj), d)
    return SymTensor.make(a)


def owrap(o, dtype):
    return SymTensor.make(SymArray.wrap(o, ndt(dtype)))


def td(x):
    return T_OF[S.vd_of(A(x))]


def default():
    return torch.get_default_dtype()


def fdt(x):
    """dtype of a float-valued function of x"""
    d = td(x)
    return d if d.is_floating_point else default()


def dimarg(k, names=("dim", "axis")):
    for n in names:
        if n in k:
            return k.pop(n)
    return None


def pyint(x):
    if isinstance(x, SymTensor):
        return operator.index(x)
    return operator.index(x) if not isinstance(x, float) else x


def shape_of(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list, torch.Size)):
        args = tuple(args[0])
    return tuple(pyint(a) for a in args)


def plain(x):
    """real tensor with the concrete values (pins/forks)"""
    if isinstance(x, SymTensor):
        c = S.concretise(x._sym_a)
        return torch.from_numpy(np.array(c, copy=True, subok=False).reshape(x._sym_a.shape))
    if isinstance(x, Sym):
        return x.concretise()
    if isinstance(x, SymArray):
        return S.concretise(x)
    if isinstance(x, (tuple, list)):
        return type(x)(plain(v) for v in x) if type(x) in (tuple, list) else type(x)(*[plain(v) for v in x])
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def rewrap(x):
    if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor) and x.dtype in N_OF:
        return SymTensor.make(to_sym(x.detach().numpy()))
    if type(x) in (tuple, list):
        return type(x)(rewrap(v) for v in x)
    return x


def anysym(x):
    if isinstance(x, SymTensor):
        return S.has_sym(x._sym_a)
    if isinstance(x, Sym):
        return True
    if isinstance(x, (tuple, list)):
        return any(anysym(v) for v in x)
    if isinstance(x, dict):
        return any(anysym(v) for v in x.values())
    return False


GETTERS = {"shape", "dtype", "device", "ndim", "requires_grad", "is_cuda", "layout", "is_sparse", "is_leaf", "is_meta",
           "is_mkldnn", "is_quantized", "is_nested", "names", "is_cpu", "is_mps", "grad", "grad_fn", "is_xpu", "itemsize",
           "nbytes", "_backward_hooks", "output_nr", "_version", "retains_grad", "is_ipu", "is_hpu", "is_vulkan", "is_mtia"}
METAS = {"size", "dim", "numel", "nelement", "is_floating_point", "is_complex", "get_device", "element_size", "ndimension",
         "is_contiguous", "stride", "is_signed", "is_same_size", "storage_offset", "is_inference", "result_type", "_is_view"}


def dispatch(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    if name == "__get__":
        attr = getattr(getattr(func, "__self__", None), "__name__", "?")
        if attr in GETTERS:
            with torch._C.DisableTorchFunctionSubclass():
                return func(*args, **kwargs)
        return dispatch_name("get:" + attr, args, kwargs)
    if name == "__set__":
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)
    if name in METAS:
        return func(*[under(a) for a in args], **{k: under(v) for k, v in kwargs.items()})
    return dispatch_name(name, args, kwargs, func)


LIMITS = {}


def dispatch_name(name, args, kwargs, func=None):
    f = OPS.get(name)
    if f is None and name.startswith("__") and name.endswith("__"):
        f = OPS.get(name[2:-2])
    if f is not None:
        r = f(*args, **kwargs)
        if r is not NotImplemented:
            return r
    if name.endswith("_") and not name.endswith("__") and OPS.get(name[:-1]):
        r = OPS[name[:-1]](*args, **kwargs)
        t = args[0]
        if not isinstance(t, SymTensor):
            raise EngineLimit(f"in-place {name} on a real tensor")
        t._sym_a[...] = r._sym_a
        return t
    if func is not None and not anysym(args) and not anysym(kwargs):
        return rewrap(func(*plain(args), **plain(kwargs)))
    raise EngineLimit(f"torch operation {name}")


# ---- elementwise ---------------------------------------------------------

_CMP = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
        "logical_and": np.logical_and, "logical_or": np.logical_or, "logical_xor": np.logical_xor}


def _bc(x, y):
    a, b = O(x), O(y)
    try:
        sh = np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        raise RuntimeError(f"The size of tensor a {a.shape} must match the size of tensor b {b.shape}")
    return np.broadcast_to(a, sh), np.broadcast_to(b, sh), sh


def elementwise(fn, x, y, dtype, cast_in=None):
    a, b, sh = _bc(x, y)
    out = np.empty(sh, dtype=object)
    d = ndt(dtype)
    c = ndt(cast_in) if cast_in is not None else None
    for k in np.ndindex(sh):
        u, v = a[k], b[k]
        if c is not None:
            u, v = S.cast(u, c), S.cast(v, c)
        out[k] = S.cast(fn(u, v), d)
    return owrap(out, dtype)


def rtype(*xs):
    d = None
    xs = [under(x) for x in xs]
    if len(xs) == 1:
        return torch.result_type(xs[0], xs[0])
    d = torch.result_type(xs[0], xs[1])
    for x in xs[2:]:
        d = torch.promote_types(d, x.dtype if isinstance(x, torch.Tensor) else torch.result_type(x, x))
    return d


def _defbin():
    for n, u in _CMP.items():
        fn = S.BIN[u.__name__]
        OPS[n] = (lambda fn: lambda x, y, out=None: elementwise(fn, x, y, torch.bool))(fn)
    for n in ("maximum", "minimum", "fmax", "fmin", "remainder", "floor_divide", "bitwise_and", "bitwise_or", "bitwise_xor"):
        fn = S.BIN[n]
        OPS[n] = (lambda fn: lambda x, y: elementwise(fn, x, y, rtype(x, y), rtype(x, y)))(fn)
    for n in ("not_equal", "greater", "less", "greater_equal", "less_equal", "equal_"):
        pass
    OPS["greater"], OPS["less"] = OPS["gt"], OPS["lt"]
    OPS["greater_equal"], OPS["less_equal"], OPS["not_equal"] = OPS["ge"], OPS["le"], OPS["ne"]
    OPS["and"], OPS["or"], OPS["xor"] = OPS["bitwise_and"], OPS["bitwise_or"], OPS["bitwise_xor"]
    OPS["__rsub__"] = lambda x, y: OPS["sub"](y, x)
    OPS["rsub"] = OPS["__rsub__"]
    OPS["__rtruediv__"] = OPS["__rdiv__"] = lambda x, y: OPS["div"](y, x)
    OPS["__radd__"], OPS["__rmul__"] = (lambda x, y: OPS["add"](x, y)), (lambda x, y: OPS["mul"](x, y))
    OPS["__rpow__"] = lambda x, y: OPS["pow"](y, x)


_defbin()


@ops("add")
def t_add(x, y, alpha=1, out=None):
    if alpha != 1:
        y = t_mul(y, alpha)
    d = rtype(x, y)
    if d == torch.bool:
        return elementwise(S.BIN["logical_or"], x, y, d)
    return elementwise(S.BIN["add"], x, y, d)


@ops("sub", "subtract")
def t_sub(x, y, alpha=1, out=None):
    if alpha != 1:
        y = t_mul(y, alpha)
    d = rtype(x, y)
    if d == torch.bool or isinstance(under(x), torch.Tensor) and isinstance(under(y), torch.Tensor) \
            and torch.bool in (under(x).dtype, under(y).dtype) or isinstance(under(y), torch.Tensor) \
            and under(y).dtype == torch.bool or isinstance(under(x), torch.Tensor) and under(x).dtype == torch.bool:
        raise RuntimeError("Subtraction, the `-` operator, with a bool tensor is not supported.")
    return elementwise(S.BIN["subtract"], x, y, d)


@ops("mul", "multiply")
def t_mul(x, y, out=None):
    d = rtype(x, y)
    if d == torch.bool:
        return elementwise(S.BIN["logical_and"], x, y, d)
    return elementwise(S.BIN["multiply"], x, y, d, d)


@ops("div", "divide", "true_divide", "truediv")
def t_div(x, y, rounding_mode=None, out=None):
    if rounding_mode == "floor":
        return OPS["floor_divide"](x, y)
    d = rtype(x, y)
    if rounding_mode is not None:
        raise EngineLimit("div rounding mode")
    d = d if d.is_floating_point else default()
    return elementwise(S.BIN["true_divide"], x, y, d, d)


@ops("pow")
def t_pow(x, y, out=None):
    d = rtype(x, y)
    return elementwise(_pow, x, y, d)


def _pow(a, b):
    if not isinstance(b, Sym) and S.is_num(b) and S.rational(b) == 2 and isinstance(a, S.SymReal):
        r = sqrt_arg(a)
        if r is not None:
            return S.SymReal(r, a.nan)
    return S.op_pow(a, b)


def sqrt_arg(a):
    """sqrt(e)**2 == e for the e >= 0 that only sums of squares produce"""
    e = a.e
    if e.num_args() == 1 and e.decl().name() == "sqrt" and CTX.path is not None and e.get_id() in _SOS:
        return e.arg(0)
    return None


_SOS = {}


def _un(fn, floaty=False, boolout=False):
    def f(x, out=None):
        d = torch.bool if boolout else (fdt(x) if floaty else td(x))
        n = ndt(d)
        return owrap(S.emap(lambda v: S.cast(fn(v), n), O(x)), d)
    return f


for _n, _f in (("exp", "exp"), ("log", "log"), ("sqrt", "sqrt"), ("log2", "log2"), ("log10", "log10"), ("log1p", "log1p"),
               ("expm1", "expm1"), ("tanh", "tanh"), ("sin", "sin"), ("cos", "cos"), ("reciprocal", "reciprocal")):
    OPS[_n] = _un(S.UN[_f], floaty=True)
for _n, _f in (("neg", "negative"), ("negative", "negative"), ("abs", "absolute"), ("absolute", "absolute"), ("sign", "sign"),
               ("floor", "floor"), ("ceil", "ceil"), ("round", "rint"), ("square", "square"), ("positive", "positive"),
               ("bitwise_not", "invert"), ("invert", "invert"), ("trunc", "trunc")):
    OPS[_n] = _un(S.UN[_f])
for _n, _f in (("isnan", "isnan"), ("isinf", "isinf"), ("isfinite", "isfinite"), ("logical_not", "logical_not")):
    OPS[_n] = _un(S.UN[_f], boolout=True)


@ops("rsqrt")
def t_rsqrt(x):
    return t_div(1.0, OPS["sqrt"](x))


@ops("sigmoid")
def t_sigmoid(x):
    return t_div(1.0, t_add(OPS["exp"](OPS["neg"](x)), 1.0))


@ops("relu")
def t_relu(x, inplace=False):
    return OPS["maximum"](x, t_zeros_like(x))


@ops("clamp", "clip")
def t_clamp(x, min=None, max=None, out=None):
    r = x
    if min is not None:
        r = elementwise(S.op_max, r, min, rtype(r, min))
    if max is not None:
        r = elementwise(S.op_min, r, max, rtype(r, max))
    return r if r is not x else wrap(A(x).copy())


@ops("clamp_min")
def t_clamp_min(x, m):
    return t_clamp(x, min=m)


@ops("where")
def t_where(c, x=None, y=None):
    if x is None:
        return tuple(wrap(v) for v in np.nonzero(A(c)))
    d = rtype(x, y)
    n = ndt(d)
    co, xo, yo = O(c), O(x), O(y)
    sh = np.broadcast_shapes(co.shape, xo.shape, yo.shape)
    co, xo, yo = (np.broadcast_to(v, sh) for v in (co, xo, yo))
    out = np.empty(sh, dtype=object)
    for k in np.ndindex(sh):
        out[k] = S.cast(S.ite(co[k], S.cast(xo[k], n), S.cast(yo[k], n)), n)
    return owrap(out, d)


@ops("masked_fill")
def t_masked_fill(x, mask, value):
    return wrap(t_where(mask, value, x), dtype=td(x)) if False else wrap(A(t_where(mask, A(value), x)), td(x))


@ops("masked_select")
def t_masked_select(x, mask):
    return wrap(A(x)[A(mask)])


@ops("nan_to_num")
def t_nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    return wrap(np.nan_to_num(A(x), nan=nan), td(x))


# ---- casts, copies, devices -----------------------------------------------

@ops("to")
def t_to(x, *args, **k):
    d = k.get("dtype")
    for a in args:
        if isinstance(a, torch.dtype):
            d = a
        elif isinstance(a, torch.Tensor):
            d = a.dtype
    if d is None or d == td(x):
        return x if not k.get("copy") else wrap(A(x).copy())
    return wrap(A(x).copy(), d)


@ops("type")
def t_type(x, dtype=None, **k):
    if dtype is None:
        return under(x).type()
    return t_to(x, dtype)


@ops("type_as")
def t_type_as(x, o):
    return t_to(x, o.dtype)


for _n, _d in (("float", torch.float32), ("double", torch.float64), ("long", torch.int64), ("int", torch.int32), ("bool", torch.bool),
               ("half", torch.float16)):
    OPS[_n] = (lambda d: lambda x, **k: t_to(x, d))(_d)


@ops("detach", "cpu", "contiguous", "requires_grad_", "alias", "cuda", "pin_memory", "data", "get:data", "resolve_conj", "resolve_neg")
def t_same(x, *a, **k):
    return SymTensor.make(A(x))


@ops("clone")
def t_clone(x, **k):
    return SymTensor.make(A(x).copy())


@ops("numpy")
def t_numpy(x, **k):
    return A(x)


@ops("item")
def t_item(x):
    return x.item()


@ops("tolist")
def t_tolist(x):
    return x.tolist()


@ops("copy_")
def t_copy_(x, src, *a):
    if not isinstance(x, SymTensor):
        return NotImplemented
    x._sym_a[...] = A(src)
    return x


@ops("retain_grad", "backward", "register_hook", "share_memory_")
def t_none(x, *a, **k):
    return None


@ops("zero_")
def t_zero_(x):
    x._sym_a[...] = 0
    return x


@ops("fill_")
def t_fill_(x, v):
    x._sym_a[...] = A(v)
    return x


# ---- creation -----------------------------------------------------------

@ops("zeros_like")
def t_zeros_like(x, dtype=None, **k):
    return t_full(tuple(A(x).shape), 0, dtype=dtype or td(x))


@ops("ones_like")
def t_ones_like(x, dtype=None, **k):
    return t_full(tuple(A(x).shape), 1, dtype=dtype or td(x))


@ops("empty_like")
def t_empty_like(x, dtype=None, **k):
    return t_full(tuple(A(x).shape), 0, dtype=dtype or td(x))


@ops("full_like")
def t_full_like(x, v, dtype=None, **k):
    return t_full(tuple(A(x).shape), v, dtype=dtype or td(x))


@ops("new_zeros")
def t_new_zeros(x, *size, dtype=None, **k):
    return t_full(shape_of(size), 0, dtype=dtype or td(x))


@ops("new_ones")
def t_new_ones(x, *size, dtype=None, **k):
    return t_full(shape_of(size), 1, dtype=dtype or td(x))


@ops("new_full")
def t_new_full(x, size, v, dtype=None, **k):
    return t_full(shape_of((size,)), v, dtype=dtype or td(x))


@ops("new_tensor")
def t_new_tensor(x, data, dtype=None, **k):
    return wrap(to_sym(A(data)), dtype or td(x))


@ops("full")
def t_full(size, fill_value, dtype=None, **k):
    size = shape_of((size,)) if not isinstance(size, int) else (size,)
    v = A(fill_value)
    if isinstance(v, np.ndarray):
        v = v.base_obj.ravel()[0]
    if dtype is None:
        dtype = {"b": torch.bool, "i": torch.int64, "f": default()}[S.kind(v)]
    o = np.empty(size, dtype=object)
    v = S.cast(v, ndt(dtype))
    for i in np.ndindex(size):
        o[i] = v
    return owrap(o, dtype)


# ---- shape --------------------------------------------------------------

@ops("reshape", "view")
def t_reshape(x, *shape, **k):
    if k.get("dtype") or shape and isinstance(shape[0], torch.dtype):
        raise EngineLimit("dtype view")
    sh = shape_of(shape if shape else (k.get("shape") or k.get("size"),))
    try:
        return SymTensor.make(A(x).reshape(sh))
    except ValueError as e:
        raise RuntimeError(f"shape '{sh}' is invalid for input of size {A(x).size}") from e


@ops("view_as", "reshape_as")
def t_view_as(x, o):
    return t_reshape(x, tuple(A(o).shape))


@ops("permute")
def t_permute(x, *dims, **k):
    return SymTensor.make(A(x).transpose(*shape_of(dims or (k["dims"],))))


@ops("transpose", "swapaxes", "swapdims")
def t_transpose(x, dim0, dim1):
    return SymTensor.make(A(x).swapaxes(dim0, dim1))


@ops("t", "get:T", "get:mT", "get:H")
def t_t(x):
    a = A(x)
    return SymTensor.make(a.T if a.ndim <= 2 else a.swapaxes(-1, -2))


@ops("unsqueeze")
def t_unsqueeze(x, dim):
    a = A(x)
    d = dim if dim >= 0 else dim + a.ndim + 1
    return SymTensor.make(a.reshape(a.shape[:d] + (1,) + a.shape[d:]))


@ops("squeeze")
def t_squeeze(x, dim=None):
    a = A(x)
    if dim is None:
        return SymTensor.make(a.reshape(tuple(s for s in a.shape if s != 1)))
    dims = [d % a.ndim for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
    return SymTensor.make(a.reshape(tuple(s for i, s in enumerate(a.shape) if i not in dims or s != 1)))


@ops("flatten")
def t_flatten(x, start_dim=0, end_dim=-1):
    a = A(x)
    if a.ndim == 0:
        return SymTensor.make(a.reshape((1,)))
    s, e = start_dim % a.ndim, end_dim % a.ndim
    if s > e:
        raise RuntimeError("flatten() has invalid args: start_dim cannot come after end_dim")
    n = 1
    for q in a.shape[s:e + 1]:
        n *= q
    return SymTensor.make(a.reshape(a.shape[:s] + (n,) + a.shape[e + 1:]))


@ops("ravel")
def t_ravel(x):
    return t_flatten(x)


@ops("repeat", "tile")
def t_repeat(x, *reps, **k):
    reps = shape_of(reps or (k.get("repeats") or k.get("dims"),))
    a = A(x)
    if len(reps) < a.ndim:
        raise RuntimeError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
    return SymTensor.make(SymArray.wrap(np.tile(a.base_obj, reps), a.dtype))


@ops("repeat_interleave")
def t_repeat_interleave(x, repeats, dim=None, **k):
    r = A(repeats)
    r = S.concretise(r) if isinstance(r, SymArray) else pyint(repeats)
    return SymTensor.make(SymArray.wrap(np.repeat(O(x), r, axis=dim), A(x).dtype))


@ops("expand", "broadcast_to")
def t_expand(x, *sizes, **k):
    sh = list(shape_of(sizes or (k.get("size"),)))
    a = A(x)
    off = len(sh) - a.ndim
    sh = [a.shape[i - off] if s == -1 else s for i, s in enumerate(sh)]
    return SymTensor.make(SymArray.wrap(np.broadcast_to(a.base_obj, sh), a.dtype))


@ops("expand_as")
def t_expand_as(x, o):
    return t_expand(x, tuple(A(o).shape))


@ops("cat", "concat", "concatenate")
def t_cat(tensors, dim=0, out=None, axis=None):
    dim = dim if axis is None else axis
    ts = list(tensors)
    d = rtype(*[t if isinstance(t, SymTensor) else t for t in ts]) if len(ts) > 1 else td(ts[0])
    d = td(ts[0])
    for t in ts[1:]:
        d = torch.promote_types(d, td(t))
    arrs = [O(t) for t in ts]
    keep = [a for a in arrs if not (a.ndim == 1 and a.shape[0] == 0)]
    if not keep:
        return owrap(np.empty((0,), dtype=object), d)
    n = ndt(d)
    try:
        r = np.concatenate([S.emap(lambda v: S.cast(v, n), a) for a in keep], axis=dim)
    except ValueError as e:
        raise RuntimeError(f"Sizes of tensors must match except in dimension {dim}. {e}") from e
    return owrap(r, d)


@ops("hstack")
def t_hstack(tensors):
    return t_cat(tensors, 0 if A(tensors[0]).ndim <= 1 else 1)


@ops("vstack", "row_stack")
def t_vstack(tensors):
    return t_cat([t_reshape(t, (1, -1)) if A(t).ndim <= 1 else t for t in tensors], 0)


@ops("stack")
def t_stack(tensors, dim=0, out=None):
    ts = list(tensors)
    shapes = {tuple(A(t).shape) for t in ts}
    if len(shapes) > 1:
        raise RuntimeError(f"stack expects each tensor to be equal size, but got {shapes}")
    nd = A(ts[0]).ndim
    return t_cat([_keep1(t_unsqueeze(t, dim if dim >= 0 else dim + nd + 1)) for t in ts], dim)


def _keep1(t):
    return t


@ops("split")
def t_split(x, sizes, dim=0):
    a = A(x)
    n = a.shape[dim]
    if isinstance(sizes, int):
        sizes = [min(sizes, n - i) for i in range(0, n, sizes)]
    out, p = [], 0
    for s in sizes:
        ix = [slice(None)] * a.ndim
        ix[dim] = slice(p, p + s)
        out.append(SymTensor.make(a[tuple(ix)]))
        p += s
    return tuple(out)


@ops("chunk")
def t_chunk(x, chunks, dim=0):
    return t_split(x, -(-A(x).shape[dim] // chunks), dim)


@ops("unbind")
def t_unbind(x, dim=0):
    a = A(x)
    return tuple(wrap(a.base_obj.take(i, axis=dim) if a.ndim > 1 else a[i], td(x)) for i in range(a.shape[dim]))


@ops("flip")
def t_flip(x, *dims, **k):
    return SymTensor.make(SymArray.wrap(np.flip(O(x), shape_of(dims or (k["dims"],))), A(x).dtype))


@ops("roll")
def t_roll(x, shifts, dims=None):
    return SymTensor.make(SymArray.wrap(np.roll(O(x), shifts, dims), A(x).dtype))


# ---- indexing -------------------------------------------------------------

def _index(k):
    if isinstance(k, tuple):
        return tuple(_index1(v) for v in k)
    return _index1(k)


def _index1(k):
    if isinstance(k, torch.Tensor):
        if k.dtype.is_floating_point:
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        return A(k)
    if isinstance(k, list):
        return to_sym([A(v) if isinstance(v, torch.Tensor) else v for v in k]) if k else np.array([], dtype=np.intp)
    if isinstance(k, slice):
        f = lambda v: pyint(v) if v is not None else None
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _maskcheck(a, k):
    ks = k if isinstance(k, tuple) else (k,)
    if any(v is Ellipsis or v is None for v in ks):
        return
    p = 0
    for v in ks:
        if isinstance(v, np.ndarray) and S.vd_of(v).kind == "b":
            if tuple(a.shape[p:p + v.ndim]) != tuple(v.shape):
                raise IndexError(f"The shape of the mask {v.shape} at index {p} does not match the shape of the indexed tensor")
            p += v.ndim
        else:
            p += 1


@ops("__getitem__")
def t_getitem(x, k):
    a, i = A(x), _index(k)
    if isinstance(i, bool):
        raise EngineLimit("indexing by a python bool")
    _maskcheck(a, i)
    if isinstance(i, np.ndarray) and i.ndim == 0 and S.vd_of(i).kind in "iu":
        i = operator.index(to_sym(i).base_obj[()])
    if isinstance(i, tuple):
        i = tuple(operator.index(to_sym(v).base_obj[()]) if isinstance(v, np.ndarray) and v.ndim == 0 and S.vd_of(v).kind in "iu"
                  else v for v in i)
    if isinstance(i, np.ndarray) and i.ndim == 0:      # 0-d mask
        a, i = a.reshape((1,) + a.shape), to_sym(i).reshape((1,))
    i = S.conv_index(i)
    r = a.base_obj[i]
    if isinstance(r, np.ndarray):
        return owrap(r, td(x))
    # a 0-d view on one element: keep aliasing through a 1-element slice
    return owrap(_cell(a.base_obj, i, r), td(x))


def _cell(base, i, r):
    try:
        idx = i if isinstance(i, tuple) else (i,)
        sl = tuple(slice(j, j + 1 if j != -1 else None) if isinstance(j, (int, np.integer)) else j for j in idx)
        v = base[sl]
        if isinstance(v, np.ndarray) and v.size == 1:
            return v.reshape(())
    except Exception:
        pass
    o = np.empty((), dtype=object)
    o[()] = r
    return o


@ops("__setitem__")
def t_setitem(x, k, v):
    if not isinstance(x, SymTensor):
        raise EngineLimit("assigning symbolic values into a real tensor")
    a, i = x._sym_a, _index(k)
    _maskcheck(a, i)
    val = A(v)
    if isinstance(val, np.ndarray) and val.ndim and isinstance(i, SymArray) and S.vd_of(i).kind == "b" and i.ndim == a.ndim == 1 \
            and len(val) != 1:
        sel = S.conv_index(i)
        if int(sel.sum()) != len(val):
            raise IndexError("shape mismatch: value tensor cannot be broadcast to indexing result")
    try:
        a[i] = val
    except ValueError as e:
        raise RuntimeError(str(e)) from e


@ops("index_select")
def t_index_select(x, dim, index):
    ix = S.conv_index1(A(index))
    return SymTensor.make(SymArray.wrap(np.take(O(x), ix, axis=dim), A(x).dtype))


@ops("index_fill_", "index_fill")
def t_index_fill(x, dim, index, value):
    ix = S.conv_index1(A(index))
    sl = [slice(None)] * A(x).ndim
    sl[dim] = ix
    x._sym_a[tuple(sl)] = A(value)
    return x


@ops("gather")
def t_gather(x, dim, index, **k):
    a, ix = O(x), S.conv_index1(A(index))
    out = np.empty(ix.shape, dtype=object)
    for p in np.ndindex(ix.shape):
        q = list(p)
        q[dim] = int(ix[p])
        if not 0 <= q[dim] < a.shape[dim]:
            raise RuntimeError(f"index {q[dim]} is out of bounds for dimension {dim} with size {a.shape[dim]}")
        out[p] = a[tuple(q)]
    return owrap(out, td(x))


def _scatter(x, dim, index, src, f):
    ix = S.conv_index1(A(index))
    s = np.broadcast_to(O(src), ix.shape) if not isinstance(src, torch.Tensor) else O(src)
    d = ndt(td(x))
    for p in np.ndindex(ix.shape):
        q = list(p)
        q[dim] = int(ix[p])
        if not 0 <= q[dim] < A(x).shape[dim]:
            raise RuntimeError(f"index {q[dim]} is out of bounds for dimension {dim}")
        x._sym_a.base_obj[tuple(q)] = S.cast(f(x._sym_a.base_obj[tuple(q)], s[p]), d)
    return x


@ops("scatter_")
def t_scatter_(x, dim, index, src=None, value=None, **k):
    return _scatter(x, dim, index, src if src is not None else value, lambda o, n: n)


@ops("scatter")
def t_scatter(x, dim, index, src=None, value=None, **k):
    return t_scatter_(t_clone(x), dim, index, src, value)


@ops("scatter_add_", "index_add_")
def t_scatter_add_(x, dim, index, src):
    return _scatter(x, dim, index, src, S.op_add)


# ---- reductions -----------------------------------------------------------

def _dims(dim, nd):
    if dim is None or dim == ():
        return None
    return tuple(dim) if isinstance(dim, (tuple, list, torch.Size)) else int(dim)


def _red(npf, dt, floatonly=False, errname=""):
    def f(x, dim=None, keepdim=False, axis=None, keepdims=None, dtype=None, out=None):
        if dim is not None and isinstance(dim, torch.dtype):
            dtype, dim = dim, None
        dim = axis if dim is None else dim
        keepdim = keepdim if keepdims is None else keepdims
        a = A(x)
        if floatonly and dtype is None and a.dtype.kind != "f":
            raise RuntimeError(f"{errname}(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
        ax = _dims(dim, a.ndim)
        if a.ndim == 0:
            a, ax = a.reshape((1,)), None
            keepdim = False
        r = npf(a, axis=ax, keepdims=bool(keepdim)) if ax is not None or keepdim else npf(a)
        return wrap(r, dtype or dt(x))
    return f


def _sumdt(x):
    d = td(x)
    return d if d.is_floating_point else torch.int64


OPS["sum"] = _red(np.sum, _sumdt)
OPS["prod"] = _red(np.prod, _sumdt)
OPS["mean"] = _red(np.mean, td, True, "mean")
OPS["nansum"] = _red(np.nansum, _sumdt)
OPS["any"] = _red(np.any, lambda x: torch.bool)
OPS["all"] = _red(np.all, lambda x: torch.bool)
OPS["amax"] = _red(np.max, td)
OPS["amin"] = _red(np.min, td)
OPS["count_nonzero"] = _red(np.count_nonzero, lambda x: torch.int64)


def _arg(npf):
    def f(x, dim=None, keepdim=False, axis=None, keepdims=None):
        dim = axis if dim is None else dim
        a = A(x)
        if dim is None:
            return wrap(npf(a.ravel()), torch.int64)
        r = npf(a, axis=dim)
        r = wrap(r, torch.int64)
        return t_unsqueeze(r, dim) if keepdim else r
    return f


OPS["argmax"], OPS["argmin"] = _arg(np.argmax), _arg(np.argmin)
VI = collections.namedtuple("VI", "values indices")


def _ext(npf, npa, bin_):
    def f(x, dim=None, keepdim=False, axis=None, other=None, out=None):
        if isinstance(dim, torch.Tensor):
            other, dim = dim, None
        if other is not None:
            return OPS[bin_](x, other)
        dim = axis if dim is None else dim
        a = A(x)
        if dim is None:
            if a.size == 0:
                raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0.")
            return wrap(npf(a), td(x))
        if a.shape[dim] == 0:
            raise IndexError("max(): Expected reduction dim to have non-zero size.")
        v, i = wrap(npf(a, axis=dim), td(x)), wrap(npa(a, axis=dim), torch.int64)
        if keepdim:
            v, i = t_unsqueeze(v, dim), t_unsqueeze(i, dim)
        return VI(v, i)
    return f


OPS["max"], OPS["min"] = _ext(np.max, np.argmax, "maximum"), _ext(np.min, np.argmin, "minimum")


@ops("median")
def t_median(x, dim=None, keepdim=False):
    a = A(x)
    if dim is None:
        s = np.sort(a.ravel())
        return wrap(s[(len(s) - 1) // 2], td(x))
    i = np.argsort(a, axis=dim, kind="stable")
    i = wrap(np.take(to_sym(i).base_obj, (a.shape[dim] - 1) // 2, axis=dim), torch.int64)
    return VI(t_squeeze(t_gather(x, dim, t_unsqueeze(i, dim)), dim), i)


@ops("sort")
def t_sort(x, dim=-1, descending=False, stable=False):
    a = A(x)
    i = to_sym(np.argsort(-a if descending else a, axis=dim, kind="stable"))
    i = wrap(i, torch.int64)
    return VI(t_gather(x, dim, i), i)


@ops("argsort")
def t_argsort(x, dim=-1, descending=False, stable=False):
    return t_sort(x, dim, descending).indices


@ops("topk")
def t_topk(x, k, dim=-1, largest=True, sorted=True):
    k = pyint(k)
    a = A(x)
    if k > a.shape[dim]:
        raise RuntimeError("selected index k out of range")
    v, i = t_sort(x, dim, largest)
    sl = [slice(None)] * a.ndim
    sl[dim] = slice(0, k)
    return VI(t_getitem(v, tuple(sl)), t_getitem(i, tuple(sl)))


@ops("cumsum")
def t_cumsum(x, dim, dtype=None):
    return wrap(np.cumsum(A(x), axis=dim), dtype or _sumdt(x))


def _var(x, dim=None, unbiased=True, keepdim=False, correction=None, axis=None):
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    c = correction if correction is not None else (1 if unbiased else 0)
    dim = axis if dim is None else dim
    return wrap(np.var(A(x), axis=_dims(dim, A(x).ndim), ddof=c, keepdims=keepdim), td(x))


OPS["var"] = _var
OPS["std"] = lambda *a, **k: OPS["sqrt"](_var(*a, **k))


@ops("norm", "linalg_norm", "vector_norm", "linalg_vector_norm")
def t_norm(x, p="fro", dim=None, keepdim=False, ord=None, dtype=None, **k):
    o = ord if ord is not None else p
    if o is None or o == "fro" or o == 2:
        sq = OPS["sum"](t_mul(x, x), dim=dim, keepdim=keepdim)
        return soss(sq)
    if o == 1:
        return OPS["sum"](OPS["abs"](x), dim=dim, keepdim=keepdim)
    if o == math.inf:
        return OPS["amax"](OPS["abs"](x), dim=dim, keepdim=keepdim)
    raise EngineLimit(f"norm {o}")


def soss(sq):
    """square root of a sum of squares (remembered, so that squaring it again is exact)"""
    r = OPS["sqrt"](sq)
    for v in r._sym_a.base_obj.ravel():
        if isinstance(v, S.SymReal):
            _SOS[v.e.get_id()] = v.e
    return r


@ops("dist")
def t_dist(x, y, p=2):
    return t_norm(t_sub(x, y), p)


@ops("unique")
def t_unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    if dim is not None:
        raise EngineLimit("unique along a dimension")
    r = np.unique(A(x), return_inverse=return_inverse, return_counts=return_counts)
    if not (return_inverse or return_counts):
        return wrap(r, td(x))
    return (wrap(r[0], td(x)),) + tuple(wrap(v, torch.int64) for v in r[1:])


@ops("_unique2", "_return_output")
def t_unique2(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    return t_unique(x, sorted, return_inverse, return_counts, dim)


@ops("bincount")
def t_bincount(x, weights=None, minlength=0):
    r = np.bincount(A(x), weights=None if weights is None else A(weights), minlength=minlength)
    return wrap(r, torch.int64 if weights is None else torch.float64)


@ops("isin")
def t_isin(x, t, **k):
    return wrap(np.isin(A(x), A(t), **k), torch.bool)


@ops("nonzero")
def t_nonzero(x, as_tuple=False):
    r = [wrap(v, torch.int64) for v in np.nonzero(A(x))]
    return tuple(r) if as_tuple else t_stack(r, 1)


@ops("equal")
def t_equal(x, y):
    if tuple(A(x).shape) != tuple(A(y).shape):
        return False
    return bool(OPS["all"](OPS["eq"](x, y)))


@ops("isclose")
def t_isclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    return OPS["le"](OPS["abs"](t_sub(x, y)), t_add(t_mul(OPS["abs"](y), rtol), atol))


@ops("allclose")
def t_allclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(OPS["all"](t_isclose(x, y, rtol, atol)))


# ---- linear algebra -------------------------------------------------------

def _mmcheck(x, y):
    if td(x) != td(y):
        raise RuntimeError(f"expected m1 and m2 to have the same dtype, but got: {td(x)} != {td(y)}")


@ops("matmul", "mm", "bmm", "mv", "dot", "__matmul__")
def t_matmul(x, y, out=None):
    _mmcheck(x, y)
    a, b = A(x), A(y)
    try:
        if a.ndim == 3 or b.ndim == 3:
            a3 = a if a.ndim == 3 else np.broadcast_to(a.base_obj, (b.shape[0],) + a.shape)
            b3 = b if b.ndim == 3 else np.broadcast_to(b.base_obj, (a.shape[0],) + b.shape)
            if len(a3) != len(b3):
                raise ValueError("batch")
            parts = [S.matmul(SymArray.wrap(np.asarray(S.to_obj(u)), a.dtype), SymArray.wrap(np.asarray(S.to_obj(v)), b.dtype))
                     for u, v in zip(a3, b3)]
            return owrap(np.stack([S.to_obj(p) for p in parts]) if parts else
                         np.empty((0, a.shape[-2], b.shape[-1]), dtype=object), td(x))
        return wrap(S.matmul(a, b), td(x))
    except ValueError as e:
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({a.shape} and {b.shape})") from e


def _la(f, *xs):
    try:
        return f(*[A(x) for x in xs])
    except np.linalg.LinAlgError as e:
        raise torch._C._LinAlgError(str(e)) from e


@ops("inverse", "linalg_inv")
def t_inv(x, out=None):
    return wrap(_la(npfun.h_inv, x), td(x))


@ops("linalg_solve")
def t_solve(x, y, left=True, out=None):
    if not left or A(x).dtype != A(y).dtype:
        raise EngineLimit("linalg.solve")
    return wrap(_la(npfun.h_solve, x, y), td(x))


@ops("det", "linalg_det")
def t_det(x):
    return wrap(_la(npfun.h_det, x), td(x))


@ops("cholesky", "linalg_cholesky")
def t_cholesky(x, upper=False, out=None):
    o = S.to_obj(A(x))
    n = len(o)
    r = np.full((n, n), 0.0, dtype=object)
    for j in range(n):
        s = o[j, j]
        for k in range(j):
            s = S.op_sub(s, S.op_mul(r[j, k], r[j, k]))
        if not bool(S._cmp("gt", s, 0)):
            raise torch._C._LinAlgError("linalg.cholesky: The factorization could not be completed because the input is "
                                        "not positive-definite")
        r[j, j] = S.UN["sqrt"](s)
        for i in range(j + 1, n):
            t = o[i, j]
            for k in range(j):
                t = S.op_sub(t, S.op_mul(r[i, k], r[j, k]))
            r[i, j] = S.op_div(t, r[j, j])
    return owrap(r.T.copy() if upper else r, td(x))


@ops("addmm")
def t_addmm(c, x, y, beta=1, alpha=1):
    return t_add(t_mul(c, beta), t_mul(t_matmul(x, y), alpha))


@ops("linear")
def t_linear(x, w, b=None):
    r = t_matmul(x, t_t(w))
    return r if b is None else t_add(r, b)


@ops("outer", "ger")
def t_outer(x, y):
    return t_mul(t_unsqueeze(x, 1), t_unsqueeze(y, 0))


@ops("diag")
def t_diag(x, diagonal=0):
    return SymTensor.make(np.diag(A(x), diagonal))


@ops("diagonal")
def t_diagonal(x, offset=0, dim1=0, dim2=1):
    if A(x).ndim != 2:
        raise EngineLimit("diagonal")
    return t_diag(x, offset)


@ops("trace")
def t_trace(x):
    return OPS["sum"](t_diag(x))


@ops("fill_diagonal_")
def t_fill_diagonal_(x, v, wrap=False):
    for i in range(min(x._sym_a.shape)):
        x._sym_a[i, i] = v
    return x


@ops("triu")
def t_triu(x, diagonal=0):
    return SymTensor.make(SymArray.wrap(np.where(np.triu(np.ones(A(x).shape, bool), diagonal), O(x), 0), A(x).dtype))


@ops("tril")
def t_tril(x, diagonal=0):
    return SymTensor.make(SymArray.wrap(np.where(np.tril(np.ones(A(x).shape, bool), diagonal), O(x), 0), A(x).dtype))


@ops("einsum")
def t_einsum(eq, *operands):
    if len(operands) == 1 and isinstance(operands[0], (tuple, list)):
        operands = operands[0]
    return wrap(np.einsum(eq, *[A(o) for o in operands]), td(operands[0]))


@ops("cov")
def t_cov(x, correction=1, **k):
    if any(v is not None for v in k.values()):
        raise EngineLimit("cov weights")
    a = A(x)
    one = a.ndim < 2
    a = a.reshape((1, -1)) if one else a
    c = a - np.mean(a, axis=1).reshape((-1, 1))
    n = max(a.shape[1] - correction, 0)
    r = S.matmul(c, c.T) / (float(n) if n else 0.0) if n else np.full((a.shape[0],) * 2, float("nan"))
    r = wrap(r, td(x))
    return t_reshape(r, ()) if one else r


@ops("cdist")
def t_cdist(x, y, p=2.0, compute_mode=None):
    if p != 2:
        raise EngineLimit(f"cdist p={p}")
    a, b = A(x), A(y)
    if a.dtype != b.dtype:
        raise RuntimeError("X1 and X2 must have the same dtype")
    if a.ndim != 2 or b.ndim != 2 or a.shape[1] != b.shape[1]:
        raise RuntimeError("X1 and X2 must have the same number of columns.")
    d = t_sub(t_unsqueeze(x, 1), t_unsqueeze(y, 0))
    return soss(OPS["sum"](t_mul(d, d), dim=2))


# ---- nn.functional ----------------------------------------------------------

@ops("softmax")
def t_softmax(x, dim=None, _stacklevel=3, dtype=None):
    if dim is None:
        dim = 0 if A(x).ndim in (0, 1, 3) else 1
    if dtype is not None:
        x = t_to(x, dtype)
    if not td(x).is_floating_point:
        raise NotImplementedError("\"softmax\" not implemented for integer tensors")
    e = OPS["exp"](x)
    return t_div(e, OPS["sum"](e, dim=dim, keepdim=True))


@ops("log_softmax")
def t_log_softmax(x, dim=None, _stacklevel=3, dtype=None):
    if dim is None:
        dim = 0 if A(x).ndim in (0, 1, 3) else 1
    e = OPS["exp"](x)
    return t_sub(x, OPS["log"](OPS["sum"](e, dim=dim, keepdim=True)))


@ops("logsumexp")
def t_logsumexp(x, dim, keepdim=False):
    return OPS["log"](OPS["sum"](OPS["exp"](x), dim=dim, keepdim=keepdim))


@ops("normalize")
def t_normalize(x, p=2.0, dim=1, eps=1e-12, out=None):
    n = t_clamp(t_norm(x, p, dim=dim, keepdim=True), min=eps)
    return t_div(x, n)


@ops("cosine_similarity")
def t_cosine_similarity(x1, x2, dim=1, eps=1e-8):
    a, b = x1, x2
    sh = np.broadcast_shapes(A(a).shape, A(b).shape)
    a, b = t_expand(a, sh), t_expand(b, sh)
    num = OPS["sum"](t_mul(a, b), dim=dim)
    na = t_clamp(t_norm(a, 2, dim=dim), min=eps)
    nb = t_clamp(t_norm(b, 2, dim=dim), min=eps)
    return t_div(num, t_mul(na, nb))


def _reduce(l, reduction, denom=None):
    if reduction == "none":
        return l
    if reduction == "sum":
        return OPS["sum"](l)
    if reduction == "mean":
        return OPS["mean"](l) if denom is None else t_div(OPS["sum"](l), denom)
    raise ValueError(f"{reduction} is not a valid value for reduction")


@ops("mse_loss")
def t_mse_loss(x, y, size_average=None, reduce=None, reduction="mean", weight=None):
    d = t_sub(x, y)
    return _reduce(t_mul(d, d), reduction)


@ops("l1_loss")
def t_l1_loss(x, y, size_average=None, reduce=None, reduction="mean", weight=None):
    return _reduce(OPS["abs"](t_sub(x, y)), reduction)


@ops("nll_loss", "nll_loss_nd")
def t_nll_loss(x, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    a, t = O(x), O(target)
    if td(target).is_floating_point or td(target) == torch.bool:
        raise RuntimeError("expected scalar type Long but found Float")
    if a.ndim == 1:
        a, t, scalar = a.reshape(1, -1), t.reshape(1), True
    else:
        scalar = False
    if a.shape[0] != t.shape[0] or a.shape[2:] != t.shape[1:]:
        raise ValueError(f"Expected input batch_size ({a.shape}) to match target batch_size ({t.shape}).")
    C = a.shape[1]
    w = None if weight is None else O(weight)
    out = np.empty(t.shape, dtype=object)
    ws = np.empty(t.shape, dtype=object)
    for k in np.ndindex(t.shape):
        v = t[k]
        v = operator.index(v) if isinstance(v, Sym) else int(v)
        if v == ignore_index:
            out[k], ws[k] = 0.0, 0.0
            continue
        if not 0 <= v < C:
            raise IndexError(f"Target {v} is out of bounds.")
        ws[k] = 1.0 if w is None else w[v]
        out[k] = S.op_mul(S.UN["negative"](a[(k[0], v) + k[1:]]), ws[k]) if w is not None else S.UN["negative"](a[(k[0], v) + k[1:]])
    l = owrap(out.reshape(()) if scalar else out, td(x))
    return _reduce(l, reduction, OPS["sum"](owrap(ws, td(x))))


@ops("cross_entropy", "cross_entropy_loss")
def t_cross_entropy(x, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0):
    if label_smoothing:
        raise EngineLimit("label smoothing")
    dim = 0 if A(x).ndim == 1 else 1
    lp = t_log_softmax(x, dim)
    if td(target).is_floating_point:
        if tuple(A(x).shape) != tuple(A(target).shape):
            raise RuntimeError("expected scalar type Long but found Float")
        l = OPS["neg"](OPS["sum"](t_mul(lp, target), dim=dim))
        return _reduce(l, reduction)
    return t_nll_loss(lp, target, weight, ignore_index=ignore_index, reduction=reduction)


@ops("binary_cross_entropy")
def t_bce(x, y, weight=None, size_average=None, reduce=None, reduction="mean"):
    if tuple(A(x).shape) != tuple(A(y).shape):
        raise ValueError(f"Using a target size ({A(y).shape}) that is different to the input size ({A(x).shape}) is deprecated.")
    lx = t_clamp(OPS["log"](x), min=-100)
    l1 = t_clamp(OPS["log"](t_sub(1, x)), min=-100)
    l = OPS["neg"](t_add(t_mul(y, lx), t_mul(t_sub(1, y), l1)))
    if weight is not None:
        l = t_mul(l, weight)
    return _reduce(l, reduction)


@ops("one_hot")
def t_one_hot(x, num_classes=-1):
    a = O(x)
    if num_classes == -1:
        num_classes = int(OPS["max"](x)) + 1
    out = np.empty(a.shape + (num_classes,), dtype=object)
    for k in np.ndindex(a.shape):
        for c in range(num_classes):
            out[k + (c,)] = S.cast(S._cmp("eq", a[k], c), np.dtype(np.int64))
    return owrap(out, torch.int64)


@ops("dropout")
def t_dropout(x, p=0.5, training=True, inplace=False):
    if training and p:
        raise EngineLimit("dropout in training mode")
    return x


@ops("batch_norm")
def t_batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    if training or running_mean is None or A(x).ndim != 2:
        raise EngineLimit("batch norm in training mode")
    r = t_div(t_sub(x, running_mean), OPS["sqrt"](t_add(running_var, eps)))
    if weight is not None:
        r = t_mul(r, weight)
    return r if bias is None else t_add(r, bias)


@ops("kl_div", "huber_loss", "smooth_l1_loss", "binary_cross_entropy_with_logits")
def t_unmodelled(*a, **k):
    return NotImplemented


# ---- factories ----------------------------------------------------------------

def _gated(depth=2):
    if CTX.path is None:
        return False
    g = sys._getframe(depth).f_globals.get("__name__", "")
    return g.startswith(npfun.PREFIXES + ("engine.tselftest",))


def _has(x):
    return CTX.path is not None and (S.contains_symtype(x) or isinstance(x, np.ndarray) and x.dtype.kind == "O")


def install():
    if _O:
        return
    S.TENSOR.append(SymTensor)
    _install_dunders()
    for n in ("tensor", "as_tensor", "from_numpy", "zeros", "ones", "empty", "full", "eye", "arange", "linspace"):
        _O[n] = getattr(torch, n)

    def creation(name):
        orig = _O[name]

        def f(*a, **k):
            if CTX.path is None or not (_gated() or _has(list(a))):
                return orig(*a, **k)
            a = [shape_of((v,)) if isinstance(v, (tuple, list, torch.Size)) else (_scalar(v)) for v in a]
            k = {q: (_scalar(v) if not isinstance(v, (tuple, list)) else shape_of((v,))) for q, v in k.items() if q != "out"}
            r = orig(*a, **k)
            return rewrap(r)
        f.__name__ = name
        f.__wrapped__ = orig
        return f

    for n in ("zeros", "ones", "empty", "eye", "arange", "linspace"):
        setattr(torch, n, creation(n))

    def full(size, fill_value, dtype=None, **k):
        if CTX.path is None or not (_gated() or _has([fill_value])):
            return _O["full"](size, fill_value, dtype=dtype, **k)
        return t_full(size, fill_value, dtype)
    torch.full = full

    def conv(name):
        orig = _O[name]

        def f(data, *a, dtype=None, **k):
            if CTX.path is None or not (_gated() or _has(data)):
                return orig(data, *a, dtype=dtype, **k) if dtype is not None else orig(data, *a, **k)
            dtype = a[0] if a and isinstance(a[0], torch.dtype) else dtype
            if isinstance(data, torch.Tensor):
                x = A(data)
            elif S.contains_symtype(data) or isinstance(data, np.ndarray):
                x = to_sym(data)
            else:
                return rewrap(orig(data, dtype=dtype))
            scalars = not isinstance(data, (np.ndarray, torch.Tensor)) and not _holds_arrays(data)
            if dtype is None and scalars and x.dtype.kind == "f":
                dtype = default()
            if name == "tensor" or dtype is not None and ndt(dtype) != x.dtype:
                x = x.copy()
            return wrap(x, dtype)
        f.__name__ = name
        f.__wrapped__ = orig
        return f

    for n in ("tensor", "as_tensor", "from_numpy"):
        setattr(torch, n, conv(n))
    Sym.__torch_function__ = classmethod(lambda cls, func, types, args=(), kwargs=None: dispatch(func, args, kwargs or {}))
    _O["Tensor"] = torch.Tensor


def _holds_arrays(x):
    if isinstance(x, (list, tuple)):
        return any(_holds_arrays(v) for v in x)
    return isinstance(x, (np.ndarray, torch.Tensor))


def _scalar(v):
    if isinstance(v, SymTensor):
        v = v._only()
    if isinstance(v, S.SymReal):
        return float(v)
    if isinstance(v, Sym):
        return operator.index(v)
    return v
