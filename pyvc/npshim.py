"""The part of numpy the repository uses, on symbolic tensors. These definitions are the assumed contracts on numpy
(exact-real arithmetic; cross-checked against numpy itself by selftest.py)."""
import itertools
import math
import types
import z3
from . import core, tensor
from .core import (SymNum, SymBool, Unsupported, ctx, ite, and_, or_, not_, is_sym, znum, mkbool, Nan, MaybeNan, split_nan, mknan, Cplx,
                   sqrt_, floor_, cos_, sin_, unary_uf)
from .tensor import (Tensor, astensor, normint, cast, kind_of, kind_from_dtype, elementwise1, elementwise2, elementwise_n, conc_dim, dim_eq,
                     NpValueError, NpIndexError, NpTypeError, DType, broadcast_shapes, broadcast_to, is_vlist, scalar_ok, from_list, big_op, dim_prod, memo_fn)
from .containers import VList, SymIter, symiter_of


class NpModule(types.ModuleType):
    def __getattr__(self, k):
        if k == "pi":
            return core.PI() if core.Ctx.cur is not None else math.pi
        raise Unsupported(f"numpy.{k}")


numpy = NpModule("numpy")


def export(f=None, *names):
    if f is None:
        return lambda g: export(g, *names)
    for n in (f.__name__.rstrip("_"), *names):
        setattr(numpy, n, f)
    return f


numpy.ndarray = Tensor
numpy.inf = math.inf
numpy.Inf = math.inf
numpy.newaxis = None
numpy.e = math.e
numpy.float64 = numpy.float32 = float
numpy.int64 = numpy.int32 = numpy.intp = int
numpy.bool_ = bool
numpy.complex128 = complex


class _NpInt:
    _np_int_ = True


class _NpFloat:
    _np_float_ = True


numpy.integer = _NpInt
numpy.floating = _NpFloat
numpy.number = _NpFloat
numpy.nan = Nan()
numpy.NaN = Nan()


def shape_of(s):
    if isinstance(s, (tuple, list)) or is_vlist(s) or hasattr(s, "_tensor_"):
        out = tuple(normint(x) for x in s)
    else:
        out = (normint(s),)
    for d in out:
        if isinstance(d, int):
            if d < 0:
                raise NpValueError("negative dimensions are not allowed")
        elif not ctx().must(d >= 0):
            if not bool(d >= 0):
                raise NpValueError("negative dimensions are not allowed")
    return out


def _const(v, shape, kind):
    return Tensor.new(lambda idx: v, shape_of(shape), kind)


@export
def zeros(shape, dtype=None, order=None):
    k = kind_from_dtype(dtype)
    return _const(cast(0, k) if k != "obj" else 0, shape, k)


@export
def ones(shape, dtype=None, order=None):
    k = kind_from_dtype(dtype)
    return _const(cast(1, k), shape, k)


@export
def empty(shape, dtype=None, order=None):
    k = kind_from_dtype(dtype)
    shape = shape_of(shape)
    if k == "complex":
        return _const(0j, shape, k)
    f = ctx().fresh_fn("empty", len(shape), {"obj": "real"}.get(k, k)) if shape else None
    from .loops import wrap
    if f is None:
        v = ctx().fresh("empty", k)
        return Tensor.new(lambda idx: v, (), k)
    return Tensor.new(lambda idx: wrap(f(*[znum(i) for i in idx])), shape, k)


@export
def full(shape, fill_value, dtype=None):
    if hasattr(fill_value, "_tensor_") or isinstance(fill_value, (list, tuple)):
        t = broadcast_to(astensor(fill_value), shape_of(shape)).copy()
        return t
    k = kind_of(fill_value) if dtype is None else kind_from_dtype(dtype)
    return _const(cast(fill_value, k), shape, k)


def _like(t, dtype):
    t = astensor(t)
    return t.shape, (t.kind if dtype is None else kind_from_dtype(dtype))


@export
def zeros_like(t, dtype=None):
    s, k = _like(t, dtype)
    return Tensor.new(lambda idx: cast(0, k), s, k)


@export
def ones_like(t, dtype=None):
    s, k = _like(t, dtype)
    return Tensor.new(lambda idx: cast(1, k), s, k)


@export
def full_like(t, v, dtype=None):
    s, k = _like(t, dtype)
    return Tensor.new(lambda idx: cast(v, k), s, k)


@export
def empty_like(t, dtype=None):
    s, k = _like(t, dtype)
    return empty(s, dtype=DType(k))


@export
def array(v, dtype=None, copy=True, ndmin=0):
    t = astensor(v).copy()
    if dtype is not None:
        t = t.astype(dtype)
    while t.ndim < ndmin:
        t = t._view([None] + [slice(None)] * t.ndim).copy()
    return t


@export(None, "asanyarray", "ascontiguousarray")
def asarray(v, dtype=None):
    t = astensor(v)
    if dtype is not None and kind_from_dtype(dtype) != t.kind:
        t = t.astype(dtype)
    return t


@export
def copy(v):
    return astensor(v).copy()


@export
def arange(*a, dtype=None):
    a = [x.item() if hasattr(x, "_tensor_") else x for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    if any(isinstance(x, float) and math.isinf(x) for x in (start, stop)):
        raise NpValueError("arange: cannot compute length")
    ints = all(isinstance(x, (int, bool)) or (isinstance(x, SymNum) and x.is_int) for x in (start, stop, step))
    if ints and isinstance(step, int) and step == 1:
        n = stop - start
    elif ints and isinstance(step, int):
        if step == 0:
            raise ZeroDivisionError()
        n = -((start - stop) // step) if step > 0 else -((stop - start) // (-step))
    else:
        # ceil((stop-start)/step)
        q = tensor.div_(cast(stop, "real") - cast(start, "real"), cast(step, "real"))
        n = -floor_(-q)
    n = normint(n)
    if isinstance(n, int):
        n = max(n, 0)
    elif not ctx().must(n >= 0):
        n = core.max_(n, 0)
    k = "int" if ints else "real"
    if dtype is not None:
        k = kind_from_dtype(dtype)
    return Tensor.new(lambda idx: cast(start + idx[0] * step, k), (n,), k)


@export
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = normint(num)
    div = num - 1 if endpoint else num
    if hasattr(start, "_tensor_") or hasattr(stop, "_tensor_") or isinstance(start, (list, tuple)) or isinstance(stop, (list, tuple)):
        start, stop = astensor(start), astensor(stop)
        shp = broadcast_shapes(start.shape, stop.shape)
        s, e = broadcast_to(start, shp).reader(), broadcast_to(stop, shp).reader()
        t = Tensor.new(lambda idx: _lin(s(idx[1:]), e(idx[1:]), div, idx[0]), (num, *shp), "real")
        return tensor.moveaxis(t, 0, axis) if axis else t
    t = Tensor.new(lambda idx: _lin(start, stop, div, idx[0]), (num,), "real")
    if retstep:
        return t, tensor.div_(cast(stop - start, "real"), div)
    return t


def _lin(s, e, div, i):
    s, e = cast(s, "real"), cast(e, "real")
    if isinstance(div, int):
        if div <= 0:
            return s
        if isinstance(i, int):
            if i == 0:
                return s
            if i == div:
                return e
        return s + (e - s) * cast(i, "real") / div if not isinstance(i, int) else s + (e - s) * tensor.div_(i, div)
    return ite(div <= 0, s, s + (e - s) * tensor.div_(cast(i, "real"), cast(div, "real")))


@export
def eye(n, m=None, dtype=None):
    m = n if m is None else m
    return Tensor.new(lambda idx: ite(idx[0] == idx[1], 1.0, 0.0), (normint(n), normint(m)), "real")


@export
def concatenate(ts, axis=0):
    s = symiter_of(ts)
    if s is not None:
        raise Unsupported("concatenate of symbolically many arrays")
    return tensor.concatenate(list(ts), axis)


@export
def stack(ts, axis=0):
    return tensor.stack_(list(ts), axis)


@export
def vstack(ts):
    return tensor.concatenate([atleast_2d(t) for t in ts], 0)


@export
def hstack(ts):
    ts = [atleast_1d(t) for t in ts]
    return tensor.concatenate(ts, 0 if ts[0].ndim == 1 else 1)


@export
def column_stack(ts):
    ts = [astensor(t) for t in ts]
    return tensor.concatenate([t._view([slice(None), None]) if t.ndim == 1 else t for t in ts], 1)


@export
def append(a, b, axis=None):
    return tensor.concatenate([astensor(a), astensor(b)], axis)


@export
def atleast_1d(t):
    t = astensor(t)
    return t._view([None]) if t.ndim == 0 else t


@export
def atleast_2d(t):
    t = astensor(t)
    if t.ndim == 0:
        return t._view([None, None])
    if t.ndim == 1:
        return t._view([None, slice(None)])
    return t


@export
def atleast_3d(t):
    t = astensor(t)
    if t.ndim == 0:
        return t._view([None, None, None])
    if t.ndim == 1:
        return t._view([None, slice(None), None])
    if t.ndim == 2:
        return t._view([slice(None), slice(None), None])
    return t


@export
def expand_dims(t, axis):
    return tensor.expand_dims(t, axis)


@export
def squeeze(t, axis=None):
    return tensor.squeeze(t, axis)


@export
def moveaxis(t, a, b):
    return tensor.moveaxis(t, a, b)


@export
def swapaxes(t, a, b):
    t = astensor(t)
    ax = list(range(t.ndim))
    ax[a], ax[b] = ax[b], ax[a]
    return tensor.transpose(t, ax)


@export
def transpose(t, axes=None):
    return tensor.transpose(astensor(t), axes)


@export
def reshape(t, shape, order="C"):
    return tensor.reshape(t, shape)


@export
def ravel(t):
    return tensor.reshape(t, (-1,))


@export
def broadcast_to_(t, shape):
    return broadcast_to(astensor(t), shape_of(shape))


numpy.broadcast_to = broadcast_to_


@export
def broadcast_arrays(*ts):
    ts = [astensor(t) for t in ts]
    shp = broadcast_shapes(*[t.shape for t in ts])
    return [broadcast_to(t, shp) for t in ts]


@export
def tile(t, reps):
    t = astensor(t)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) or is_vlist(reps) else (reps,)
    nd = max(len(reps), t.ndim)
    reps = (1,) * (nd - len(reps)) + tuple(normint(r) for r in reps)
    t = t._view([None] * (nd - t.ndim) + [slice(None)] * t.ndim)
    rd = t.reader()
    shp = t.shape
    out = tuple(normint(d * r) for d, r in zip(shp, reps))

    def fn(idx):
        p = []
        for i, d, r in zip(idx, shp, reps):
            if isinstance(r, int) and r == 1:
                p.append(i)
            elif isinstance(d, int) and d == 1:
                p.append(0)
            else:
                p.append(core.divmod_(i, d)[1])
        return rd(tuple(p))
    return Tensor.new(memo_fn(fn), out, t.kind)


@export
def repeat(t, n, axis=None):
    t = astensor(t)
    if axis is None:
        t = tensor.reshape(t, (-1,))
        axis = 0
    if hasattr(n, "_tensor_") or isinstance(n, (list, tuple)):
        raise Unsupported("repeat with counts")
    n = normint(n)
    axis %= t.ndim
    rd = t.reader()
    shp = list(t.shape)
    one = isinstance(shp[axis], int) and shp[axis] == 1
    shp[axis] = normint(shp[axis] * n)

    def fn(idx):
        p = list(idx)
        p[axis] = 0 if one else core.divmod_(idx[axis], n)[0]
        return rd(tuple(p))
    return Tensor.new(memo_fn(fn), shp, t.kind)


@export
def flip(t, axis=None):
    t = astensor(t)
    axes = range(t.ndim) if axis is None else ([axis] if not isinstance(axis, (tuple, list)) else axis)
    axes = [a % t.ndim for a in axes]
    return t._view([slice(None, None, -1) if a in axes else slice(None) for a in range(t.ndim)])


@export
def roll(t, shift, axis=None):
    t = astensor(t)
    shp = t.shape
    if axis is None:
        f = tensor.reshape(t, (-1,))
        r = roll(f, shift, 0)
        return r if t.ndim == 1 else tensor.reshape(r, shp)
    axis %= t.ndim
    rd, n = t.reader(), t.shape[axis]

    def fn(idx):
        p = list(idx)
        p[axis] = core.divmod_(idx[axis] - shift, n)[1]
        return rd(tuple(p))
    return Tensor.new(memo_fn(fn), shp, t.kind)


@export
def meshgrid(*ts, indexing="xy", sparse=False):
    ts = [astensor(t) for t in ts]
    ts = [tensor.reshape(t, (-1,)) for t in ts]
    nd = len(ts)
    order = list(range(nd))
    if indexing == "xy" and nd >= 2:
        order[0], order[1] = 1, 0
    shape = [None] * nd
    for k in range(nd):
        shape[order[k]] = ts[k].shape[0]
    out = []
    for k in range(nd):
        rd, a = ts[k].reader(), order[k]
        out.append(Tensor.new((lambda rd, a: lambda idx: rd((idx[a],)))(rd, a), tuple(shape), ts[k].kind))
    return VList(out)


@export
def diff(t, n=1, axis=-1, prepend=None):
    t = astensor(t)
    axis %= t.ndim
    if prepend is not None:
        p = astensor(prepend)
        if p.ndim == 0:
            s = list(t.shape)
            s[axis] = 1
            p = broadcast_to(p, s)
        t = tensor.concatenate([p, t], axis)
    for _ in range(n):
        a = [slice(None)] * t.ndim
        b = list(a)
        a[axis], b[axis] = slice(1, None), slice(None, -1)
        t = t[tuple(a)] - t[tuple(b)]
    return t


@export
def cumsum(t, axis=None):
    t = astensor(t)
    if axis is None:
        t = tensor.reshape(t, (-1,))
        axis = 0
    axis %= t.ndim
    rd, n = t.reader(), t.shape[axis]
    if not conc_dim(n):
        n = core.try_concrete(n)

    def fn(idx):
        i = idx[axis]

        def el(j):
            p = list(idx)
            p[axis] = j
            return rd(tuple(p))
        if conc_dim(n):
            if isinstance(i, int):
                return tensor.fold("sum", [el(j) for j in range(i + 1)])
            r = tensor.fold("sum", [el(j) for j in range(n)])
            for q in range(n - 2, -1, -1):
                r = ite(i == q, tensor.fold("sum", [el(j) for j in range(q + 1)]), r)
            return r
        return big_op("sum", i + 1, el, t.kind)
    k = t.kind if t.kind != "bool" else "int"
    return Tensor.new(memo_fn(fn), t.shape, k)


# ---- elementwise
def _u(fn, kind=None):
    def g(x, out=None, **kw):
        r = elementwise1(x, fn, kind)
        return r
    return g


def _real_uf(name):
    def f(v):
        if isinstance(v, MaybeNan):
            return MaybeNan(v.c, f(v.v))
        if isinstance(v, Nan):
            return v
        if not is_sym(v):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if name == "exp" and v == 0:
                    return 1.0
                if name in ("log", "log10", "log2"):
                    if v == 1:
                        return 0.0
                    if v == 0:
                        return -math.inf
        return unary_uf(name, v)
    return f


def _isnan(v):
    n, _ = split_nan(v)
    return n


def _isinf(v):
    if isinstance(v, MaybeNan):
        return False
    return isinstance(v, float) and math.isinf(v)


def exp_(v):
    if isinstance(v, (Cplx, complex)):
        v = Cplx.of(v)
        if not is_sym(v.re) and v.re == 0:
            c, s = core._cs(v.im)
            return Cplx(c, s)
        m = exp_(v.re)
        c, s = core._cs(v.im)
        return Cplx(m * c, m * s)
    if not is_sym(v) and v == 0:
        return 1.0
    r = unary_uf("exp", v)
    ctx().assume(r > 0)
    return r


def log_(name):
    f = _real_uf(name)

    def g(v):
        return f(v)
    return g


for _n, _f, _k in [("sqrt", sqrt_, "real"), ("cos", cos_, "real"), ("sin", sin_, "real"), ("exp", exp_, None), ("abs", tensor.abs_, None),
                   ("absolute", tensor.abs_, None), ("square", lambda a: a * a, None), ("negative", lambda a: -a, None),
                   ("isnan", _isnan, "bool"), ("isinf", _isinf, "bool"), ("logical_not", lambda a: not_(a if isinstance(a, (bool, SymBool)) else a != 0), "bool"),
                   ("log", log_("log"), "real"), ("log10", log_("log10"), "real"), ("log2", log_("log2"), "real"),
                   ("tan", _real_uf("tan"), "real"), ("arccos", _real_uf("arccos"), "real"), ("arcsin", _real_uf("arcsin"), "real"), ("arctan", _real_uf("arctan"), "real"),
                   ("tanh", _real_uf("tanh"), "real"),
                   ("conj", lambda a: a.conj() if isinstance(a, Cplx) else (a.conjugate() if isinstance(a, complex) else a), None),
                   ("conjugate", lambda a: a.conj() if isinstance(a, Cplx) else a, None),
                   ("sign", lambda a: ite(a > 0, 1, ite(a < 0, -1, 0)), None),
                   ("deg2rad", lambda a: a * core.PI() / 180, "real"), ("radians", lambda a: a * core.PI() / 180, "real"),
                   ("rad2deg", lambda a: a * 180 / core.PI(), "real")]:
    setattr(numpy, _n, _u(_f, _k))


def _fl(fn):
    def f(v):
        if isinstance(v, (Nan, MaybeNan)) or (isinstance(v, float) and math.isinf(v)):
            return v
        if isinstance(v, int):
            return float(v)
        return cast(fn(v), "real")
    return f


numpy.floor = _u(_fl(floor_), "real")
numpy.ceil = _u(_fl(lambda v: -floor_(-v)), "real")
numpy.trunc = _u(_fl(core.trunc_), "real")
numpy.fix = numpy.trunc
numpy.rint = _u(_fl(lambda v: core.round_half_even(cast(v, "real")) if is_sym(v) else round(v)), "real")


@export(None, "round")
def around(t, decimals=0):
    if decimals:
        raise Unsupported("round decimals")
    return numpy.rint(t)


numpy.isfinite = _u(lambda v: and_(not_(_isnan(v)), not_(_isinf(v))), "bool")
numpy.real = _u(lambda a: a.real if isinstance(a, (Cplx, complex)) else a, "real")
numpy.imag = _u(lambda a: a.imag if isinstance(a, (Cplx, complex)) else 0.0, "real")


def _b(fn, kind=None):
    def g(a, b, out=None, **kw):
        if not hasattr(a, "_tensor_") and not hasattr(b, "_tensor_") and scalar_ok(a) and scalar_ok(b):
            return fn(a, b)
        return elementwise2(a, b, fn, kind)
    return g


def _bv(v):
    return v if isinstance(v, (bool, SymBool)) else v != 0


def hypot_(a, b):
    return sqrt_(a * a + b * b)


def arctan2_(y, x):
    """angle in (-pi, pi] with (cos, sin) of it proportional to (x, y)"""
    if not is_sym(y) and not is_sym(x):
        if y == 0 and x > 0:
            return 0.0
        if y == 0 and x == 0:
            return 0.0
    c = ctx()
    zy, zx = core.zreal(y), core.zreal(x)
    key = ("atan2", z3.simplify(zy).sexpr(), z3.simplify(zx).sexpr())
    if key in c.modcache:
        return c.modcache[key][0]
    a = c.fresh("atan2", "real")
    pi = core.PI()
    r = sqrt_(x * x + y * y)
    co, si = core._cs(a)
    c.assume(and_(a > -pi, a <= pi))
    c.assume(and_(r * co == x, r * si == y) if is_sym(r) or is_sym(x) or is_sym(y) else True)
    c.assume(core.implies(and_(x == 0, y == 0), a == 0))
    c.assume(and_(core.implies(y >= 0, a >= 0), core.implies(y < 0, a < 0), core.implies(x >= 0, and_(2 * a <= pi, 2 * a >= -pi))))
    c.modcache[key] = (a,)
    return a


for _n, _f, _k in [("logical_and", lambda a, b: and_(_bv(a), _bv(b)), "bool"), ("logical_or", lambda a, b: or_(_bv(a), _bv(b)), "bool"),
                   ("logical_xor", lambda a, b: core.mkbool(z3.Xor(_zb(_bv(a)), _zb(_bv(b)))), "bool"),
                   ("mod", lambda a, b: core.divmod_(a, b)[1], None), ("remainder", lambda a, b: core.divmod_(a, b)[1], None),
                   ("floor_divide", lambda a, b: core.divmod_(a, b)[0], None),
                   ("add", tensor.add_, None), ("subtract", tensor.sub_, None), ("multiply", tensor.mul_, None), ("divide", tensor.div_, "div"),
                   ("true_divide", tensor.div_, "div"), ("power", tensor.pow_, None),
                   ("minimum", core.min_, None), ("maximum", core.max_, None), ("hypot", hypot_, "real"), ("arctan2", arctan2_, "real"),
                   ("equal", lambda a, b: a == b, "bool"), ("not_equal", lambda a, b: a != b, "bool"), ("less", lambda a, b: a < b, "bool"),
                   ("less_equal", lambda a, b: a <= b, "bool"), ("greater", lambda a, b: a > b, "bool"), ("greater_equal", lambda a, b: a >= b, "bool")]:
    setattr(numpy, _n, _b(_f, _k))


def _zb(v):
    v = core.zbool(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v


class _LogicalReduce:
    def __init__(self, f, op):
        self.f, self.op = f, op

    def __call__(self, a, b, **k):
        return self.f(a, b)

    def reduce(self, a, axis=0, **k):
        return tensor.reduce_(astensor(a), self.op, axis)


numpy.logical_or = _LogicalReduce(numpy.logical_or, "any")
numpy.logical_and = _LogicalReduce(numpy.logical_and, "all")
numpy.add = _LogicalReduce(numpy.add, "sum")
numpy.maximum = _LogicalReduce(numpy.maximum, "max")
numpy.minimum = _LogicalReduce(numpy.minimum, "min")
numpy.multiply = _LogicalReduce(numpy.multiply, "prod")


def _close(a, b, rtol=1e-5, atol=1e-8):
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        return a == b
    na, va = split_nan(a)
    nb, vb = split_nan(b)
    if isinstance(va, (bool, SymBool)):
        va = cast(va, "int")
    if isinstance(vb, (bool, SymBool)):
        vb = cast(vb, "int")
    if isinstance(va, (Cplx, complex)) or isinstance(vb, (Cplx, complex)):
        d = tensor.abs_(Cplx.of(va) - vb)
        return d <= atol + rtol * tensor.abs_(vb)
    d = va - vb
    lim = atol + rtol * abs(vb)
    return and_(not_(na), not_(nb), d <= lim, -d <= lim)


@export
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _b(lambda x, y: _close(x, y, rtol, atol), "bool")(a, b)


@export
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = elementwise2(astensor(a), astensor(b), lambda x, y: _close(x, y, rtol, atol), "bool")
    return all_(r)


@export
def array_equal(a, b):
    a, b = astensor(a), astensor(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not dim_eq(x, y):
            return False
    return all_(a == b)


@export
def where(c, *ab):
    if not ab:
        c = astensor(c)
        if c.ndim != 1:
            raise Unsupported("where with one n-d argument")
        return (nonzero1(c),)
    c = astensor(c)
    a, b = astensor(ab[0]), astensor(ab[1])
    k = tensor.join_kind(a.kind, b.kind)
    return elementwise_n([c, a, b], lambda x, y, z: cast(ite(_bv(x), y, z), k), k)


def nonzero1(c):
    sel = tensor.mask_selection(c if c.kind == "bool" else c != 0)
    return Tensor.new(lambda idx: sel.pos(idx[0]), (sel.n,), "int")


@export
def nonzero(c):
    c = astensor(c)
    if c.ndim != 1:
        raise Unsupported("nonzero n-d")
    return (nonzero1(c),)


@export
def flatnonzero(c):
    return nonzero1(tensor.reshape(c, (-1,)))


@export
def clip(t, lo, hi):
    def f(v):
        if lo is not None:
            v = core.max_(v, lo)
        if hi is not None:
            v = core.min_(v, hi)
        return v
    if hasattr(lo, "_tensor_") or hasattr(hi, "_tensor_"):
        return numpy.minimum(numpy.maximum(t, lo), hi)
    return elementwise1(t, lambda v: MaybeNan(v.c, f(v.v)) if isinstance(v, MaybeNan) else (v if isinstance(v, Nan) else f(v)))


# ---- reductions
def _red(op):
    def f(t, axis=None, keepdims=False, dtype=None, where=None, initial=None, out=None):
        s = symiter_of(t)
        if isinstance(t, VList) and not t.concrete and op == "sum":
            return t.total()
        if isinstance(t, SymIter) and s is None:
            t = VList(t)
        elif s is not None and not hasattr(t, "_tensor_"):
            return big_op(op, s.n, s.get, "real")
        if where is not None:
            raise Unsupported("reduction with where")
        return tensor.reduce_(t, op, axis, keepdims)
    return f


numpy.sum = _red("sum")
numpy.mean = _red("mean")
numpy.prod = _red("prod")
numpy.product = _red("prod")
numpy.max = numpy.amax = _red("max")
numpy.min = numpy.amin = _red("min")
any_ = numpy.any = _red("any")
all_ = numpy.all = _red("all")


@export
def count_nonzero(t, axis=None):
    t = astensor(t)
    return numpy.sum(t if t.kind == "bool" else t != 0, axis=axis)


@export
def average(t, axis=None, weights=None):
    if weights is None:
        return numpy.mean(t, axis=axis)
    raise Unsupported("weighted average")


@export
def var(t, axis=None):
    m = numpy.mean(t, axis=axis, keepdims=True)
    d = astensor(t) - m
    return numpy.mean(d * d, axis=axis)


@export
def std(t, axis=None):
    return numpy.sqrt(var(t, axis))


@export
def argmax(t, axis=None):
    return _arg(t, axis, "max")


@export
def argmin(t, axis=None):
    return _arg(t, axis, "min")


def _arg(t, axis, op):
    t = astensor(t)
    if axis is None:
        t = tensor.reshape(t, (-1,))
        axis = 0
    axis %= t.ndim
    n = t.shape[axis]
    if not conc_dim(n):
        n = core.try_concrete(n)
    rd = t.reader()
    if dim_eq(n, 0):
        raise NpValueError("attempt to get argmax of an empty sequence")

    def cmp(a, b):      # a strictly better than b
        if isinstance(a, (bool, SymBool)):
            return and_(a, not_(b)) if op == "max" else and_(not_(a), b)
        return a > b if op == "max" else a < b

    def at(rest):
        def el(i):
            p = list(rest)
            p.insert(axis, i)
            return rd(tuple(p))
        if conc_dim(n):
            best, bi = el(0), 0
            for i in range(1, n):
                v = el(i)
                b = cmp(v, best)
                best, bi = ite(b, v, best), ite(b, i, bi)
            return bi
        # first index attaining the extremum
        c = ctx()
        w = c.fresh("argm")
        ew = el(w)
        c.assume(and_(w >= 0, w < n))
        inst = []

        def instantiate(i):
            e = el(i)
            c.assume(core.implies(and_(i >= 0, i < n), not_(cmp(e, ew))))
            c.assume(core.implies(and_(i >= 0, i < w), cmp(ew, e)))
        instantiate(0)
        instantiate(n - 1)
        lam = tensor.Lam("arg" + op, n, el, w)
        lam.instantiate = instantiate
        c.lams.append(lam)
        return w
    shp = [d for a, d in enumerate(t.shape) if a != axis]
    if not shp:
        return at(())
    return Tensor.new(memo_fn(at), shp, "int")


@export
def median(t, axis=None):
    raise Unsupported("median")


@export
def sort(t, axis=-1):
    t = astensor(t)
    if t.ndim != 1:
        raise Unsupported("sort n-d")
    from .containers import sort_sym
    return from_list(sort_sym(t.elements()), t.kind)


@export
def argsort(t, axis=-1):
    t = astensor(t)
    if t.ndim != 1:
        raise Unsupported("argsort n-d")
    from .containers import sort_sym
    els = t.elements()
    return from_list(sort_sym(list(range(len(els))), key=lambda i: els[i]), "int")


@export
def searchsorted(a, v, side="left"):
    a = astensor(a)
    els = a.elements()
    f = (lambda x: tensor.fold("sum", [cast(e < x, "int") for e in els])) if side == "left" else (lambda x: tensor.fold("sum", [cast(e <= x, "int") for e in els]))
    return elementwise1(v, f, "int")


@export
def unique(t, **k):
    t = astensor(t)
    els = t.elements() if t.ndim == 1 else tensor.reshape(t, (-1,)).elements()
    counts = k.pop("return_counts", False)
    if any(k.values()):
        raise Unsupported("unique options")
    from .containers import sort_sym
    out, num = [], []
    for x in sort_sym(els):
        if not out or not bool(x == out[-1]):
            out.append(x)
            num.append(1)
        else:
            num[-1] += 1
    if counts:
        return from_list(out, t.kind), from_list(num, "int")
    return from_list(out, t.kind)


@export
def in1d(a, b):
    b = astensor(b).elements()
    return elementwise1(a, lambda v: or_(*[v == x for x in b]), "bool")


numpy.isin = in1d


@export
def matmul(a, b):
    return tensor.matmul(astensor(a), astensor(b))


@export
def dot(a, b):
    a, b = astensor(a), astensor(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensor.matmul(a, b)


@export
def outer(a, b):
    a, b = tensor.reshape(a, (-1,)), tensor.reshape(b, (-1,))
    return a[:, None] * b[None, :]


@export
def isscalar(v):
    return scalar_ok(v) and not hasattr(v, "_tensor_") or isinstance(v, str)


@export
def ndim(v):
    return astensor(v).ndim


@export
def shape(v):
    return astensor(v).shape


@export
def size(v, axis=None):
    t = astensor(v)
    return t.size if axis is None else t.shape[axis]


@export
def pad(t, width, mode="constant", constant_values=0, **k):
    if mode != "constant":
        raise Unsupported("pad mode")
    t = astensor(t)
    if isinstance(width, int) or is_sym(width):
        width = [(width, width)] * t.ndim
    elif not isinstance(width[0], (tuple, list)) and not is_vlist(width[0]):
        width = [tuple(width)] * t.ndim
    width = [tuple(w) if len(w) == 2 else (w[0], w[0]) for w in width]
    rd, shp = t.reader(), t.shape
    for w in width:
        for x in w:
            if is_sym(x):
                if not bool(x >= 0):
                    raise NpValueError("index can't contain negative values")
            elif x < 0:
                raise NpValueError("index can't contain negative values")
    out = tuple(normint(d + a + b) for d, (a, b) in zip(shp, width))
    kind = t.kind

    def fn(idx):
        p = [normint(i - a) for i, (a, b) in zip(idx, width)]
        inside = and_(*[and_(i >= 0, i < d) for i, d in zip(p, shp)])
        z = core.zbool(inside)
        if z is False:
            return cast(constant_values, kind)
        return ite(inside, rd(tuple(p)), cast(constant_values, kind))
    return Tensor.new(memo_fn(fn), out, kind)


@export
def array_split(*a, **k):
    raise Unsupported("array_split")


@export
def errstate(**k):
    from .vc import Dummy
    return Dummy("errstate")


@export
def savez(*a, **k):
    raise Unsupported("savez")


numpy.savez_compressed = numpy.save = savez

# ---- linalg / fft
linalg = NpModule("numpy.linalg")
numpy.linalg = linalg


def norm(t, ord=None, axis=None, keepdims=False):
    t = astensor(t)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    sq = elementwise1(t, lambda a: a * a)
    s = tensor.reduce_(sq, "sum", axis, keepdims)
    return elementwise1(s, sqrt_, "real") if hasattr(s, "_tensor_") else sqrt_(s)


linalg.norm = norm
fft = NpModule("numpy.fft")
numpy.fft = fft


def _dft_in(t, n, axis):
    t = astensor(t)
    axis %= t.ndim
    m = t.shape[axis]
    if n is None:
        n = m
    n = normint(n)
    rd = t.reader()
    if not dim_eq(m, n):
        lim = core.min_(m, n) if is_sym(m) or is_sym(n) else min(m, n)
    else:
        lim = n
    return t, rd, axis, n, lim


def _fft(t, n=None, axis=-1, **kw):
    """X[k] = sum_j x[j] exp(-2 pi i jk/n), truncated or zero padded to n"""
    t, rd, axis, n, lim = _dft_in(t, n, axis)

    def el(idx):
        k = idx[axis]

        def term(j):
            p = list(idx)
            p[axis] = j
            ang = -2 * core.PI() * (k * j) / n
            c, s = core._cs(ang)
            return Cplx.of(rd(tuple(p))) * Cplx(c, s)
        l = core.try_concrete(lim) if is_sym(lim) else lim
        if isinstance(l, int):
            return tensor.fold("sum", [term(j) for j in range(l)])
        return big_op("sum", l, term, "complex")
    shp = list(t.shape)
    shp[axis] = n
    return Tensor.new(memo_fn(el), shp, "complex")


def _rfft(t, n=None, axis=-1, **kw):
    t0 = astensor(t)
    axis %= t0.ndim
    f = _fft(t, n, axis)
    shp = list(f.shape)
    key = [slice(None)] * f.ndim
    key[axis] = slice(0, shp[axis] // 2 + 1)
    return f[tuple(key)]


fft.fft, fft.rfft = _fft, _rfft


def _fftfreq(n, d=1.0):
    n = normint(n)
    half = (n - 1) // 2 + 1
    return Tensor.new(lambda idx: tensor.div_(cast(ite(idx[0] < half, idx[0], idx[0] - n), "real"), n * d), (n,), "real")


fft.fftfreq = _fftfreq
fft.rfftfreq = lambda n, d=1.0: Tensor.new(lambda idx: tensor.div_(cast(idx[0], "real"), n * d), (normint(n // 2 + 1),), "real")


# ---- random
class Rng:
    """random generator: deterministic stream; its state is the history of draws (kind, count)"""
    _rng_ = True

    def __init__(self, stream):
        self.stream = stream
        self.segs = ()         # ((kind, count), ...)
        self.log = []

    def _draw(self, kind, n):
        if self.segs and self.segs[-1][0] == kind:
            prev, pos = self.segs[:-1], self.segs[-1][1]
            self.segs = prev + ((kind, normint(pos + n)),)
        else:
            prev, pos = self.segs, 0
            self.segs = prev + ((kind, normint(n)),)
        name = f"rng_{self.stream}_" + "_".join(k for k, _ in prev) + "__" + kind
        base = [znum(c) for _, c in prev]
        rng = z3.IntSort() if kind.startswith("i") else z3.RealSort()
        f = z3.Function(name, *([z3.IntSort()] * (len(base) + 1)), rng)
        c = core.Ctx.cur
        if c is not None and c.loop_stack:
            for lp in c.loop_stack:
                lp.note_rng(self)
        return lambda j: SymNum(f(*base, znum(normint(pos + j))))

    def _shape(self, size, *params):
        ps = [astensor(p) for p in params]
        if size is None:
            return broadcast_shapes(*[p.shape for p in ps]) if ps else ()
        return shape_of(size)

    def _fill(self, kind, size, params, fn):
        shp = self._shape(size, *params)
        n = dim_prod(shp)
        draw = self._draw(kind, n)
        ps = [broadcast_to(astensor(p), shp).reader() for p in params]

        def el(idx):
            flat = 0
            for i, d in zip(idx, shp):
                flat = flat * d + i
            return fn(draw(flat), *[p(idx) for p in ps])
        if not shp:
            return el(())
        return Tensor.new(memo_fn(el), shp, "real")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill("n", size, (loc, scale), lambda z, l, s: l + s * z)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f(u, l, h):
            ctx().assume(and_(u >= 0, u < 1))
            v = l + (h - l) * u
            ctx().assume(core.implies(h > l, and_(v >= l, v < h)))
            return v
        return self._fill("u", size, (low, high), f)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape if shape else None)

    def integers(self, low, high=None, size=None, endpoint=False):
        if high is None:
            low, high = 0, low
        shp = self._shape(size)
        draw = self._draw("i", dim_prod(shp))
        hi = high + 1 if endpoint else high

        def el(idx):
            flat = 0
            for i, d in zip(idx, shp):
                flat = flat * d + i
            v = draw(flat)
            ctx().assume(and_(v >= low, v < hi))
            return v
        if not shp:
            return el(())
        return Tensor.new(memo_fn(el), shp, "int")

    def choice(self, a, size=None, replace=True, p=None, axis=0):
        n = a if isinstance(a, (int, SymNum)) else (astensor(a).shape[0])
        self.log.append(("choice", n, p, size))
        if p is not None:
            p = astensor(p)
            if not dim_eq(p.shape[0], n):
                raise NpValueError("a and p must have same size")
        if not replace:
            raise Unsupported("choice without replacement")
        shp = self._shape(size)
        draw = self._draw("ic" if p is None else "ip", dim_prod(shp))
        src = None if isinstance(a, (int, SymNum)) else astensor(a)
        pr = p.reader() if p is not None else None

        def el(idx):
            flat = 0
            for i, d in zip(idx, shp):
                flat = flat * d + i
            v = draw(flat)
            ctx().assume(and_(v >= 0, v < n))
            if pr is not None and isinstance(n, int):
                # an entry of probability zero is never drawn
                for q in range(n):
                    ctx().assume(core.implies(v == q, pr((q,)) > 0))
            return v if src is None else src.at((v,))
        if not shp:
            return el(())
        return Tensor.new(memo_fn(el), shp, "int" if src is None else src.kind)

    def __deepcopy__(self, memo):
        r = Rng(self.stream)
        r.segs = self.segs
        return r


random = NpModule("numpy.random")
numpy.random = random
random.Generator = Rng


def default_rng(seed=None):
    if isinstance(seed, Rng):
        return seed
    if seed is None:
        c = ctx()
        n = c.names.get("rng", 0)
        c.names["rng"] = n + 1
        return Rng(f"entropy{n}")
    if is_sym(seed):
        raise Unsupported("symbolic seed")
    return Rng(f"seed{seed}")


random.default_rng = default_rng
random.RandomState = lambda seed=None: Rng(f"rs{seed}")


def _glob():
    c = ctx()
    if "globrng" not in c.memo:
        c.memo["globrng"] = Rng("global")
    return c.memo["globrng"]


for _m in ("normal", "uniform", "rand", "choice"):
    setattr(random, _m, (lambda m: lambda *a, **k: getattr(_glob(), m)(*a, **k))(_m))
random.seed = lambda *a: None
