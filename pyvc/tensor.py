"""Tensors with symbolic shape: shape + element closure over a (mutable, shared) storage."""
import itertools
import math
import z3
from . import core
from .core import (SymNum, SymBool, Unsupported, ctx, ite, and_, or_, not_, mkbool, mknum, zbool, znum, is_sym,
                   Nan, MaybeNan, mknan, split_nan, Cplx)


class NpError:
    """marker: raised by the shim exactly where numpy raises"""


class NpValueError(ValueError, NpError):
    pass


class NpIndexError(IndexError, NpError):
    pass


class NpTypeError(TypeError, NpError):
    pass


MAXC = 4096


def normint(v):
    """normalise an index term; concrete ints stay ints"""
    if isinstance(v, SymNum):
        s = z3.simplify(v.e, som=True)
        if z3.is_int_value(s):
            return s.as_long()
        return SymNum(s)
    if isinstance(v, SymBool):
        return v._n()
    if isinstance(v, bool):
        return int(v)
    if hasattr(v, "_tensor_"):
        if v.ndim == 0:
            return normint(v.at(()))
        if all(d == 1 for d in v.shape):
            return normint(v.at((0,) * v.ndim))
        raise NpTypeError("only integer scalar arrays can be converted to a scalar index")
    if hasattr(v, "__index__"):
        return v.__index__()
    raise NpTypeError(f"index of type {type(v).__name__}")


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = znum(a) == znum(b)
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if ctx().must(mkbool(s)):
        return True
    return bool(mkbool(s))


def dim_prod(shape):
    n = 1
    for d in shape:
        n = n * d
    return normint(n)


def conc_dim(d):
    return isinstance(d, int)


class Storage:
    __slots__ = ("fn", "shape", "kind", "serial", "written", "inputs")

    def __init__(self, fn, shape, kind):
        self.fn = fn
        self.shape = shape
        self.kind = kind
        c = core.Ctx.cur
        if c is not None:
            self.serial = c.serial
            c.serial += 1
        else:
            self.serial = -1


_KORD = {"bool": 0, "int": 1, "real": 2, "complex": 3, "obj": 4}


def kind_of(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, SymNum):
        return "int" if v.is_int else "real"
    if isinstance(v, (float, Nan, MaybeNan)):
        return "real"
    if isinstance(v, (complex, Cplx)):
        return "complex"
    if hasattr(v, "_tensor_"):
        return v.kind
    import fractions
    if isinstance(v, fractions.Fraction):
        return "real"
    if hasattr(v, "dtype") and hasattr(v, "item"):
        return {"b": "bool", "i": "int", "u": "int", "f": "real", "c": "complex"}.get(v.dtype.kind, "obj")
    return "obj"


def join_kind(*ks):
    return max(ks, key=lambda k: _KORD[k])


def cast(v, kind):
    if kind == "real":
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, int):
            return float(v) if abs(v) < 2 ** 53 else v
        if isinstance(v, SymNum) and v.is_int:
            return mknum(z3.ToReal(v.e))
        if isinstance(v, SymBool):
            return SymNum(z3.If(v.e, z3.RealVal(1), z3.RealVal(0)))
        return v
    if kind == "int":
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float):
            return int(v)
        if isinstance(v, (SymNum, SymBool)):
            return core.trunc_(v)
        return v
    if kind == "bool":
        if isinstance(v, (bool, SymBool)):
            return v
        return v != 0
    if kind == "complex":
        return Cplx.of(v) if is_sym(v) or isinstance(v, Cplx) else complex(v)
    return v


class TensorMeta(type):
    pass


class Tensor(metaclass=TensorMeta):
    _tensor_ = True
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, st, shape, mp=None, inv=None):
        self.st = st
        self.shape = tuple(shape)
        self._map = mp
        self._inv = inv

    # ---- construction
    @staticmethod
    def new(fn, shape, kind):
        shape = tuple(normint(d) for d in shape)
        return Tensor(Storage(fn, shape, kind), shape)

    @property
    def kind(self):
        return self.st.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return dim_prod(self.shape)

    @property
    def dtype(self):
        return DType(self.kind)

    # ---- element access
    def reader(self):
        fn, mp = self.st.fn, self._map
        if mp is None:
            return fn
        return lambda idx: fn(mp(idx))

    def at(self, idx):
        idx = tuple(normint(i) for i in idx)
        return self.st.fn(self._map(idx) if self._map else idx)

    def item(self):
        return self.at((0,) * self.ndim)

    def copy(self, order=None):
        return Tensor.new(self.reader(), self.shape, self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        # a deep copy of a view copies the viewed elements only (numpy semantics)
        return self.copy()

    def is_concrete_shape(self):
        return all(conc_dim(d) for d in self.shape)

    def elements(self):
        """all elements in row-major order (concrete shape only)"""
        r = self.reader()
        return [r(i) for i in self.indices()]

    def indices(self):
        shp = []
        for d in self.shape:
            if not conc_dim(d):
                d = core.try_concrete(d)
                if not conc_dim(d):
                    raise Unsupported("enumeration of a symbolic-size tensor")
            shp.append(d)
        n = math.prod(shp)
        if n > MAXC:
            raise Unsupported("tensor too large to enumerate")
        return list(itertools.product(*[range(d) for d in shp]))

    # ---- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        n_used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (list,)) or (hasattr(k, "_tensor_") and k.ndim > 0):
                kt = k if hasattr(k, "_tensor_") else astensor(k)
                n_used += kt.ndim if kt.kind == "bool" else 1
            elif is_vlist(k):
                n_used += 1
            else:
                n_used += 1
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        missing = self.ndim - n_used
        if missing < 0:
            raise NpIndexError("too many indices for array")
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * missing)
                missing = 0
            else:
                out.append(k)
        return out

    def __getitem__(self, key):
        key = self._norm_key(key)
        adv = [i for i, k in enumerate(key) if isinstance(k, list) or is_vlist(k) or (hasattr(k, "_tensor_") and k.ndim > 0)]
        if adv:
            return self._get_adv(key, adv)
        v = self._view(key)
        if v.ndim == 0:
            return v.at(())
        return v

    def _view(self, key):
        """basic indexing -> view"""
        ops = []          # per parent axis: ("i", k) or ("s", start, step, length)
        shape = []
        axis_of = []      # for each view axis: parent axis or None (newaxis)
        ax = 0
        for k in key:
            if k is None:
                shape.append(1)
                axis_of.append(None)
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                start, step, ln = slice_bounds(k, n)
                ops.append(("s", start, step))
                shape.append(ln)
                axis_of.append(ax)
            else:
                if isinstance(k, (bool, SymBool)):
                    raise Unsupported("boolean scalar index")
                k = normint(k)
                k = check_index(k, n)
                ops.append(("i", k))
            ax += 1
        pshape = self.shape
        pmap, pinv = self._map, self._inv

        def mp(idx):
            p = [None] * len(ops)
            for a, i in zip(axis_of, idx):
                if a is not None:
                    _, start, step = ops[a]
                    p[a] = normint(start + step * i)
            for a, o in enumerate(ops):
                if o[0] == "i":
                    p[a] = o[1]
            p = tuple(p)
            return pmap(p) if pmap else p

        vshape = tuple(normint(d) for d in shape)

        def inv(s):
            if pinv:
                c, p = pinv(s)
            else:
                c, p = True, s
            idx = []
            for a, d in zip(axis_of, vshape):
                if a is None:
                    idx.append(0)
                    continue
                _, start, step = ops[a]
                off = normint(p[a] - start)
                if step == 1:
                    i = off
                elif step == -1:
                    i = normint(-off)
                else:
                    q, r = core.divmod_(off, step) if step > 0 else core.divmod_(-off, -step)
                    c = and_(c, r == 0)
                    i = q
                if not (isinstance(d, int) and d == pshape[a] and start == 0 and step == 1):
                    c = and_(c, i >= 0, i < d)
                idx.append(i)
            for a, o in enumerate(ops):
                if o[0] == "i":
                    c = and_(c, p[a] == o[1])
            return c, tuple(idx)
        return Tensor(self.st, vshape, mp, inv)

    def _get_adv(self, key, adv):
        if len(adv) > 1:
            return self._get_adv_multi(key, adv)
        a = adv[0]
        k = key[a]
        k = k if hasattr(k, "_tensor_") else astensor(k)
        if k.kind == "bool":
            if k.ndim > 1:
                return self._get_full_mask(key, a, k)
            pos_axis = sum(1 for q in key[:a] if q is not None)
            if not dim_eq(k.shape[0], self.shape[pos_axis]):
                raise NpIndexError("boolean index did not match indexed array")
            sel = mask_selection(k)
            n, pos = sel.n, sel.pos
        else:
            if k.kind == "real":
                if k.ndim == 1 and k.shape[0] == 0:
                    pass
                else:
                    raise NpIndexError("arrays used as indices must be of integer (or boolean) type")
            pos_axis = sum(1 for q in key[:a] if q is not None)
            kr = k.reader()
            nax = self.shape[pos_axis]
            if k.ndim == 1:
                n = k.shape[0]

                def pos(j, kr=kr, nax=nax):
                    v = kr((j,))
                    return fix_index(v, nax)
                # bounds are an implicit precondition: oblige for concrete, skolem otherwise
                bounds_check(k, nax)
            else:
                return self._get_nd_int(key, a, k, pos_axis)
        base_key = list(key)
        base_key[a] = slice(None)
        # scalars together with one advanced index: broadcast scalars (same result for a single adv index)
        scalars_before = [i for i in range(len(base_key)) if not isinstance(base_key[i], slice) and base_key[i] is not None]
        v = self._view(base_key)
        vax = sum(1 for i, q in enumerate(base_key[:a]) if isinstance(q, slice) or q is None)
        if scalars_before:
            # numpy: if adv indices (incl. scalars) are separated by slices the adv axis goes first
            idxs = sorted(scalars_before + [a])
            if idxs != list(range(idxs[0], idxs[-1] + 1)):
                v = moveaxis(v, vax, 0)
                vax = 0
        rd = v.reader()
        shape = list(v.shape)
        shape[vax] = n

        def fn(idx):
            i = list(idx)
            i[vax] = pos(idx[vax])
            return rd(tuple(i))
        return Tensor.new(fn, shape, self.kind)

    def _get_nd_int(self, key, a, k, pos_axis):
        bounds_check(k, self.shape[pos_axis])
        base_key = list(key)
        base_key[a] = slice(None)
        if any(not isinstance(q, slice) for q in base_key):
            raise Unsupported("n-d integer index with others")
        rd, kr, nax = self.reader(), k.reader(), self.shape[pos_axis]
        shape = list(self.shape[:pos_axis]) + list(k.shape) + list(self.shape[pos_axis + 1:])
        kd = k.ndim

        def fn(idx):
            j = fix_index(kr(tuple(idx[pos_axis:pos_axis + kd])), nax)
            return rd(tuple(idx[:pos_axis]) + (j,) + tuple(idx[pos_axis + kd:]))
        return Tensor.new(fn, shape, self.kind)

    def _get_adv_multi(self, key, adv):
        ts = [key[i] if hasattr(key[i], "_tensor_") else astensor(key[i]) for i in adv]
        if any(t.kind == "bool" for t in ts) or any(not isinstance(key[i], slice) for i in range(len(key)) if i not in adv):
            raise Unsupported("several advanced indices")
        shp = broadcast_shapes(*[t.shape for t in ts])
        ts = [broadcast_to(t, shp) for t in ts]
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        rest = [i for i in range(self.ndim) if i not in adv]
        rd = self.reader()
        krs = [t.reader() for t in ts]
        nd = len(shp)
        front = adv[0] if contiguous else 0
        shape = [self.shape[i] for i in rest]
        shape[front:front] = list(shp)

        def fn(idx):
            a = idx[front:front + nd]
            r = list(idx[:front]) + list(idx[front + nd:])
            p = [None] * self.ndim
            for i, kr in zip(adv, krs):
                p[i] = fix_index(kr(tuple(a)), self.shape[i])
            for i, v in zip(rest, r):
                p[i] = v
            return rd(tuple(p))
        return Tensor.new(fn, shape, self.kind)

    def _get_full_mask(self, key, a, k):
        if any(not isinstance(q, slice) for i, q in enumerate(key) if i != a) or k.ndim != self.ndim:
            raise Unsupported("n-d mask")
        if self.is_concrete_shape():
            kr, rd = k.reader(), self.reader()
            vals = [rd(i) for i in self.indices() if bool_(kr(i))]
            return from_list(vals, self.kind)
        raise Unsupported("n-d mask of symbolic size")

    def __setitem__(self, key, value):
        key = self._norm_key(key)
        adv = [i for i, k in enumerate(key) if isinstance(k, list) or is_vlist(k) or (hasattr(k, "_tensor_") and k.ndim > 0)]
        if adv:
            return self._set_adv(key, adv, value)
        v = self._view(key)
        v._assign(value)

    def _assign(self, value):
        value = astensor(value)
        if value.ndim > self.ndim:
            extra = value.ndim - self.ndim
            for d in value.shape[:extra]:
                if not dim_eq(d, 1):
                    raise NpValueError("could not broadcast input array")
            value = value._view([0] * extra + [slice(None)] * self.ndim)
        value = broadcast_to(value, self.shape)
        rd = value.reader()
        kind = self.kind
        if self.kind in ("int", "real", "bool") and value.kind == "complex":
            raise Unsupported("complex into real array")
        if self.kind == "int" and value.kind == "real":
            pass          # numpy casts (truncation) on assignment by index
        st = self.st
        old = st.fn
        inv, n = self._inv, self.ndim
        note_write(st)
        if inv is None:
            st.fn = lambda s: cast(rd(s), kind)
            return

        def fn(s):
            c, idx = inv(s)
            c = zbool(c)
            if c is True:
                return cast(rd(idx), kind)
            if c is False:
                return old(s)
            return ite(c, cast(rd(idx), kind), old(s))
        st.fn = fn

    def _set_adv(self, key, adv, value):
        if len(adv) > 1:
            raise Unsupported("assignment with several advanced indices")
        a = adv[0]
        k = key[a]
        k = k if hasattr(k, "_tensor_") else astensor(k)
        base_key = list(key)
        if k.kind == "bool" and k.ndim == 1:
            base_key[a] = slice(None)
            v = self._view(base_key)
            vax = sum(1 for q in base_key[:a] if isinstance(q, slice) or q is None)
            if not dim_eq(k.shape[0], v.shape[vax]):
                raise NpIndexError("boolean index did not match")
            value = astensor(value)
            sel = mask_selection(k)
            shp = list(v.shape)
            shp[vax] = sel.n
            scal = value.ndim == 0
            if not scal:
                value = broadcast_to(value, shp)
            rd, kr = value.reader(), k.reader()
            st, old, inv, kind = self.st, self.st.fn, v._inv, self.kind
            note_write(st)

            def fn(s):
                c, idx = inv(s) if inv else (True, s)
                c = and_(c, kr((idx[vax],)))
                cz = zbool(c)
                if cz is False:
                    return old(s)
                i = list(idx)
                if scal:
                    val = rd(())
                else:
                    i[vax] = sel.rank(idx[vax])
                    val = rd(tuple(i))
                return ite(c, cast(val, kind), old(s))
            st.fn = fn
            return
        if k.kind == "bool" and k.ndim == self.ndim and len(key) == 1 + 0:
            value = astensor(value)
            if value.ndim == 0:
                kr, val = k.reader(), value.at(())
                st, old, inv, kind = self.st, self.st.fn, self._inv, self.kind
                note_write(st)

                def fn(s):
                    c, idx = inv(s) if inv else (True, s)
                    return ite(and_(c, kr(idx)), cast(val, kind), old(s))
                st.fn = fn
                return
            raise Unsupported("n-d mask assignment")
        if k.kind == "int" and k.ndim == 1 and conc_dim(k.shape[0]):
            value = astensor(value)
            base_key[a] = slice(None)
            v = self._view(base_key)
            vax = sum(1 for q in base_key[:a] if isinstance(q, slice) or q is None)
            shp = list(v.shape)
            shp[vax] = k.shape[0]
            value = broadcast_to(value, shp)
            for j in range(k.shape[0]):
                kk = [slice(None)] * v.ndim
                kk[vax] = k.at((j,))
                vv = [slice(None)] * v.ndim
                vv[vax] = j
                v[tuple(kk)] = value[tuple(vv)]
            return
        raise Unsupported("advanced assignment")

    # ---- iteration
    def __len__(self):
        if self.ndim == 0:
            raise NpTypeError("len() of unsized object")
        d = self.shape[0]
        if conc_dim(d):
            return d
        d = core.try_concrete(d)
        if conc_dim(d):
            return d
        raise Unsupported("len() of symbolic-size array reached natively")

    def _len(self):
        return self.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise NpTypeError("iteration over a 0-d array")
        n = core.try_concrete(self.shape[0]) if not conc_dim(self.shape[0]) else self.shape[0]
        if not conc_dim(n):
            raise Unsupported("native iteration over symbolic-size array")
        for i in range(n):
            yield self[i]

    # ---- arithmetic
    def _bin(self, o, fn, kind=None, swap=False):
        if isinstance(o, (list, tuple)) or is_vlist(o):
            o = astensor(o)
        if not hasattr(o, "_tensor_"):
            if not scalar_ok(o):
                return NotImplemented
        return elementwise2(o, self, fn, kind) if swap else elementwise2(self, o, fn, kind)

    def _ibin(self, o, fn):
        r = self._bin(o, fn)
        if r is NotImplemented:
            return r
        r = astensor(r)
        if len(r.shape) != self.ndim:
            raise NpValueError("non-broadcastable output operand")
        for a, b in zip(r.shape, self.shape):
            if not dim_eq(a, b):
                raise NpValueError("non-broadcastable output operand")
        if _KORD[self.kind] < _KORD[r.kind] and not (self.kind == "real" and r.kind == "int"):
            raise NpTypeError(f"Cannot cast ufunc output from {r.kind} to {self.kind}")
        self._assign(r)
        return self

    def __add__(self, o): return self._bin(o, add_)
    def __radd__(self, o): return self._bin(o, add_, swap=True)
    def __sub__(self, o): return self._bin(o, sub_)
    def __rsub__(self, o): return self._bin(o, sub_, swap=True)
    def __mul__(self, o): return self._bin(o, mul_)
    def __rmul__(self, o): return self._bin(o, mul_, swap=True)
    def __truediv__(self, o): return self._bin(o, div_, "div")
    def __rtruediv__(self, o): return self._bin(o, div_, "div", swap=True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: core.divmod_(a, b)[0])
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: core.divmod_(a, b)[0], swap=True)
    def __mod__(self, o): return self._bin(o, lambda a, b: core.divmod_(a, b)[1])
    def __rmod__(self, o): return self._bin(o, lambda a, b: core.divmod_(a, b)[1], swap=True)
    def __pow__(self, o): return self._bin(o, pow_)
    def __rpow__(self, o): return self._bin(o, pow_, swap=True)
    def __iadd__(self, o): return self._ibin(o, add_)
    def __isub__(self, o): return self._ibin(o, sub_)
    def __imul__(self, o): return self._ibin(o, mul_)
    def __itruediv__(self, o): return self._ibin(o, div_)
    def __neg__(self): return elementwise1(self, lambda a: -a)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise1(self, abs_)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, "bool")
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, "bool")
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, "bool")
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, "bool")
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, "bool")
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, "bool")
    def __and__(self, o): return self._bin(o, bitand_)
    def __rand__(self, o): return self._bin(o, bitand_)
    def __or__(self, o): return self._bin(o, bitor_)
    def __ror__(self, o): return self._bin(o, bitor_)
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    def __iand__(self, o): return self._ibin(o, bitand_)
    def __ior__(self, o): return self._ibin(o, bitor_)
    def __invert__(self):
        if self.kind != "bool":
            raise Unsupported("~ on non-bool")
        return elementwise1(self, not_)

    def __matmul__(self, o): return matmul(self, astensor(o))
    def __rmatmul__(self, o): return matmul(astensor(o), self)

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at(()))
        n = self.size
        if isinstance(n, SymNum):
            if not dim_eq(n, 1):
                raise NpValueError("The truth value of an array with more than one element is ambiguous")
            return bool(self.item())
        if n == 1:
            return bool(self.item())
        if n == 0:
            return False
        raise NpValueError("The truth value of an array with more than one element is ambiguous")

    def _to_scalar_bool(self):
        if self.ndim == 0 or self.size == 1:
            v = self.item()
            return v if isinstance(v, (bool, SymBool)) else v != 0
        raise NpValueError("ambiguous truth value")

    def __int__(self):
        raise Unsupported("int() of a tensor natively")

    def __float__(self):
        raise Unsupported("float() of a tensor natively")

    def __index__(self):
        if self.size == 1 and self.kind == "int":
            return core.concretize_int(self.item())
        raise NpTypeError("only integer scalar arrays can be converted to a scalar index")

    # ---- methods
    @property
    def T(self):
        return transpose(self)

    @property
    def real(self):
        return elementwise1(self, lambda a: a.real if isinstance(a, (Cplx, complex)) else a, "real")

    @property
    def imag(self):
        return elementwise1(self, lambda a: a.imag if isinstance(a, (Cplx, complex)) else 0.0, "real")

    @property
    def flat(self):
        return self.flatten()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def conj(self): return elementwise1(self, lambda a: a.conj() if isinstance(a, Cplx) else a)

    def astype(self, t, copy=True):
        k = kind_from_dtype(t)
        return elementwise1(self, lambda a: cast(a, k), k)

    def tolist(self):
        from .containers import VList
        if self.ndim == 0:
            return self.at(())
        d = self.shape[0]
        if not conc_dim(d):
            d = core.try_concrete(d)
        if not conc_dim(d):
            if self.ndim == 1:
                r = self.reader()
                return VList.sym(self.shape[0], lambda i: r((normint(i),)))
            raise Unsupported("tolist of symbolic")
        return VList([self[i].tolist() if self.ndim > 1 else self[i] for i in range(d)])

    def flatten(self, order="C"): return reshape(self, (-1,)).copy()
    def ravel(self): return reshape(self, (-1,))
    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and (isinstance(shape[0], (tuple, list)) or is_vlist(shape[0])):
            shape = tuple(shape[0])
        return reshape(self, shape)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def sum(self, axis=None, keepdims=False, **kw): return reduce_(self, "sum", axis, keepdims)
    def mean(self, axis=None, keepdims=False, **kw): return reduce_(self, "mean", axis, keepdims)
    def prod(self, axis=None, keepdims=False, **kw): return reduce_(self, "prod", axis, keepdims)
    def max(self, axis=None, keepdims=False, **kw): return reduce_(self, "max", axis, keepdims)
    def min(self, axis=None, keepdims=False, **kw): return reduce_(self, "min", axis, keepdims)
    def any(self, axis=None, keepdims=False, **kw): return reduce_(self, "any", axis, keepdims)
    def all(self, axis=None, keepdims=False, **kw): return reduce_(self, "all", axis, keepdims)
    def fill(self, v): self._assign(v)
    def dot(self, o): return matmul(self, astensor(o))
    def cumsum(self, axis=None):
        from . import npshim
        return npshim.cumsum(self, axis)
    def repeat(self, n, axis=None):
        from . import npshim
        return npshim.repeat(self, n, axis)
    def argmax(self, axis=None):
        from . import npshim
        return npshim.argmax(self, axis)

    def __repr__(self):
        return f"<Tensor {self.shape} {self.kind}>"

    def __format__(self, spec):
        raise Unsupported("formatting a tensor")


class DType:
    def __init__(self, kind):
        self._k = kind
        self.kind = {"real": "f", "int": "i", "bool": "b", "complex": "c", "obj": "O"}[kind]
        self.type = {"real": float, "int": int, "bool": bool, "complex": complex, "obj": object}[kind]
        self.name = {"real": "float64", "int": "int64", "bool": "bool", "complex": "complex128", "obj": "object"}[kind]

    def __eq__(self, o):
        try:
            return kind_from_dtype(o) == self._k
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self._k)


def kind_from_dtype(t):
    if t is None:
        return "real"
    if isinstance(t, DType):
        return t._k
    if isinstance(t, type) and issubclass(t, Tensor):
        return "obj"
    n = getattr(t, "__name__", None) or getattr(t, "name", None) or str(t)
    if t is bool or "bool" in n:
        return "bool"
    if t is int or n.startswith(("int", "uint")):
        return "int"
    if t is complex or n.startswith("complex"):
        return "complex"
    if t is float or n.startswith(("float", "double")):
        return "real"
    if t is object or n == "object":
        return "obj"
    raise Unsupported(f"dtype {t}")


def is_vlist(v):
    return getattr(v, "_vlist_", False)


def scalar_ok(o):
    return isinstance(o, (int, float, complex, SymNum, SymBool, Nan, MaybeNan, Cplx)) or \
        (hasattr(o, "dtype") and hasattr(o, "item")) or type(o).__name__ == "Fraction"


def add_(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return or_(a, b)
    return a + b
def sub_(a, b): return a - b
def mul_(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return and_(a, b)
    # 0 * x folds (inf/nan are tracked separately)
    return a * b
def bitand_(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return and_(a, b)
    raise Unsupported("& on numbers")
def bitor_(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return or_(a, b)
    raise Unsupported("| on numbers")
def abs_(a):
    if isinstance(a, (Cplx, complex)):
        a = Cplx.of(a)
        return core.sqrt_(a.re * a.re + a.im * a.im)
    if isinstance(a, MaybeNan):
        return MaybeNan(a.c, abs_(a.v))
    return abs(a)


def div_(a, b):
    if isinstance(b, (int, float)) and not isinstance(b, bool) and b == 0:
        if is_sym(a):
            return core.unary_uf("divzero", a)
        if a == 0:
            return Nan()
        return math.inf if a > 0 else -math.inf
    if isinstance(a, int) and isinstance(b, int):
        return core.mknum(core.zreal(a) / core.zreal(b))
    if not is_sym(a) and not is_sym(b) and isinstance(a, float) and isinstance(b, (int, float)) and not math.isinf(a) and not math.isinf(b) and not math.isnan(a):
        return core.mknum(core.zreal(a) / core.zreal(b))
    return a / b


def pow_(a, b):
    if isinstance(b, float) and b.is_integer() and abs(b) < 9:
        b = int(b)
    return a ** b


# ------------------------------------------------------------------ masks
class MaskSel:
    """order-preserving enumeration of the true positions of a 1-d mask"""

    def __init__(self, mask):
        c = ctx()
        self.kr = mask.reader()
        self.len = mask.shape[0]
        if conc_dim(self.len):
            self.conc = [i for i in range(self.len) if bool_(self.kr((i,)))]
            self.n = len(self.conc)
            return
        self.conc = None
        self.n = c.fresh("cnt")
        c.assume(and_(self.n >= 0, self.n <= self.len))
        self.fpos = c.fresh_fn("selpos", 1, "int")
        self.frank = c.fresh_fn("selrank", 1, "int")
        self.seen_pos = []
        self.seen_rank = {}

    def pos(self, j):
        if self.conc is not None:
            if isinstance(j, int):
                return self.conc[j]
            r = self.conc[-1] if self.conc else 0
            for q in range(len(self.conc) - 2, -1, -1):
                r = ite(j == q, self.conc[q], r)
            return r
        c = ctx()
        j = normint(j)
        jz = znum(j)
        p = self.fpos(jz)
        key = jz.sexpr()
        if key not in [k for k, _, _ in self.seen_pos]:
            inr = z3.And(jz >= 0, jz < znum(self.n))
            v = SymNum(p)
            m = zbool(self.kr((v,)))
            m = z3.BoolVal(m) if isinstance(m, bool) else m
            c.assume(z3.Implies(inr, z3.And(p >= 0, p < znum(self.len), m, self.frank(p) == jz, p >= jz)))
            for k2, j2, p2 in self.seen_pos:
                inr2 = z3.And(j2 >= 0, j2 < znum(self.n))
                c.assume(z3.Implies(z3.And(inr, inr2, jz < j2), p < p2))
                c.assume(z3.Implies(z3.And(inr, inr2, j2 < jz), p2 < p))
            self.seen_pos.append((key, jz, p))
        return SymNum(p)

    def rank(self, i):
        if self.conc is not None:
            if isinstance(i, int):
                return self.conc.index(i) if i in self.conc else 0
            r = 0
            for q, v in enumerate(self.conc):
                r = ite(i == v, q, r)
            return r
        c = ctx()
        i = normint(i)
        iz = znum(i)
        r = self.frank(iz)
        key = iz.sexpr()
        if key not in self.seen_rank:
            self.seen_rank[key] = (iz, r)
            m = zbool(self.kr((i,)))
            m = z3.BoolVal(m) if isinstance(m, bool) else m
            ok = z3.And(iz >= 0, iz < znum(self.len), m)
            c.assume(z3.Implies(ok, z3.And(r >= 0, r < znum(self.n), self.fpos(r) == iz)))
            for k2, (i2, r2) in self.seen_rank.items():
                if k2 != key:
                    c.assume(z3.Implies(z3.And(ok, r2 >= 0, r2 < znum(self.n), self.fpos(r2) == i2, i2 < iz), r2 < r))
                    c.assume(z3.Implies(z3.And(ok, r2 >= 0, r2 < znum(self.n), self.fpos(r2) == i2, i2 > iz), r2 > r))
        return SymNum(r)


def bool_(v):
    v = zbool(v)
    if isinstance(v, bool):
        return v
    return ctx().branch(v)


def mask_selection(mask):
    c = ctx()
    key = ("mask", id(mask.st.fn), id(mask._map), str(mask.shape))
    hit = c.memo.get(key)
    if hit is not None:
        return hit[0]
    # semantic identity: same generic element
    g = z3.Int("$m")
    try:
        with no_branch():
            body = zbool(mask.reader()((SymNum(g),)))
        k2 = ("maskb", str(body.sexpr() if not isinstance(body, bool) else body), str(z3.simplify(znum(mask.shape[0]))))
    except Unsupported:
        k2 = None
    if k2 is not None and k2 in c.memo:
        s = c.memo[k2][0]
    else:
        s = MaskSel(mask)
        if k2 is not None:
            c.memo[k2] = (s, mask)
    c.memo[key] = (s, mask, mask.st.fn, mask._map)
    return s


class no_branch:
    """while active, branching on a bound index variable is refused"""
    def __enter__(self):
        c = ctx()
        self.old = getattr(c, "lam_depth", 0)
        c.lam_depth = self.old + 1

    def __exit__(self, *a):
        ctx().lam_depth = self.old


# patch Ctx.branch to guard bound variables
_orig_branch = core.Ctx.branch


def _mentions_bound(e, seen=None):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("$"):
            return True
        todo.extend(x.children())
    return False


def _guarded_branch(self, cond):
    if getattr(self, "lam_depth", 0) and _mentions_bound(cond):
        raise Unsupported("branch on a bound index")
    if self.in_invariant:
        if self.must(cond):
            return True
        if self.must(z3.Not(cond)):
            return False
        raise Unsupported("undecided branch in an invariant candidate")
    return _orig_branch(self, cond)


core.Ctx.branch = _guarded_branch


# ------------------------------------------------------------------ helpers
def note_write(st):
    c = core.Ctx.cur
    if c is not None and c.loop_stack:
        for lp in c.loop_stack:
            lp.note_storage(st)


def check_index(k, n):
    """python index normalisation with bounds; raises IndexError when provably/possibly out of range"""
    if isinstance(k, int) and isinstance(n, int):
        if k < -n or k >= n:
            raise NpIndexError(f"index {k} is out of bounds for axis with size {n}")
        return k + n if k < 0 else k
    c = ctx()
    ok = and_(k >= -n, k < n)
    if not c.must(ok):
        if not bool_(ok):
            raise NpIndexError("index out of bounds")
    return fix_index(k, n)


def fix_index(k, n):
    if isinstance(k, int) and k >= 0:
        return k
    if isinstance(k, int) and isinstance(n, int):
        return k + n
    if isinstance(k, int):
        return normint(n + k)
    c = ctx()
    nonneg = k >= 0
    if nonneg is True or c.must(nonneg):
        return normint(k)
    if c.must(k < 0):
        return normint(k + n)
    return normint(ite(nonneg, k, k + n))


def bounds_check(k, n):
    c = ctx()
    if k.is_concrete_shape() and dim_prod(k.shape) <= 64:
        for e in k.elements():
            check_index(e, n)
        return
    j = [c.fresh("jb") for _ in k.shape]
    for x, d in zip(j, k.shape):
        if not bool_(and_(x >= 0, x < d)):
            return
    e = k.at(tuple(j))
    ok = and_(e >= -n, e < n)
    if not c.must(ok):
        if not bool_(ok):
            raise NpIndexError("index out of bounds in index array")


def slice_bounds(sl, n):
    """(start, step, length)"""
    step = 1 if sl.step is None else normint(sl.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == 0:
        raise NpValueError("slice step cannot be zero")
    c = core.Ctx.cur

    def clip(v, lo, hi):
        if isinstance(v, int) and isinstance(lo, int) and isinstance(hi, int):
            return max(lo, min(hi, v))
        ge = v >= lo
        if not (ge is True or c.must(ge)):
            v = core.max_(v, lo)
        le = v <= hi
        if not (le is True or c.must(le)):
            v = core.min_(v, hi)
        return v

    def norm(v, lo, hi):
        v = normint(v)
        if isinstance(v, int):
            if v < 0:
                v = n + v
                return clip(v, lo, hi)
            return clip(v, lo, hi)
        neg = v < 0
        if bool_(neg):
            v = v + n
        return clip(v, lo, hi)
    if step > 0:
        start = 0 if sl.start is None else norm(sl.start, 0, n)
        stop = n if sl.stop is None else norm(sl.stop, 0, n)
        span = normint(stop - start)
        if isinstance(span, int):
            span = max(span, 0)
        elif not c.must(span >= 0):
            span = core.max_(span, 0)
        ln = span if step == 1 else (span + (step - 1)) // step
        return normint(start), step, normint(ln)
    hi = n - 1
    start = hi if sl.start is None else norm(sl.start, -1, hi)
    stop = -1 if sl.stop is None else norm(sl.stop, -1, hi)
    span = normint(start - stop)
    if isinstance(span, int):
        span = max(span, 0)
    elif not c.must(span >= 0):
        span = core.max_(span, 0)
    s = -step
    ln = span if s == 1 else (span + (s - 1)) // s
    return normint(start), step, normint(ln)


def scalar(v):
    return Tensor.new(lambda idx: v, (), kind_of(v))


def from_list(vals, kind=None):
    vals = list(vals)
    if kind is None:
        kind = join_kind(*[kind_of(v) for v in vals]) if vals else "real"
    vals = [cast(v, kind) for v in vals]

    def fn(idx):
        i = idx[0]
        if isinstance(i, int):
            return vals[i]
        if not vals:
            return 0
        r = vals[-1]
        for q in range(len(vals) - 2, -1, -1):
            r = ite(i == q, vals[q], r)
        return r
    return Tensor.new(fn, (len(vals),), kind)


def astensor(v, kind=None):
    if isinstance(v, Tensor):
        return v
    if is_vlist(v) and not v.concrete:
        g = v.get
        k = v.elem_kind()
        return Tensor.new(lambda idx: g(idx[0]), (v.n,), k)
    if isinstance(v, range) or type(v).__name__ in ("dict_values", "dict_keys", "map", "zip", "generator"):
        v = list(v)
    if isinstance(v, (list, tuple)) or is_vlist(v):
        items = list(v)
        if not items:
            return from_list([])
        if all(not isinstance(x, (list, tuple)) and not is_vlist(x) and not hasattr(x, "_tensor_") for x in items):
            if all(scalar_ok(x) for x in items):
                return from_list(items)
            if any(isinstance(x, str) or hasattr(x, "e") for x in items) or True:
                t = from_list_obj(items)
                return t
        ts = [astensor(x) for x in items]
        return stack_(ts, 0)
    if hasattr(v, "dtype") and hasattr(v, "shape") and hasattr(v, "tolist"):
        if v.shape == ():
            return scalar(v.item())
        import numpy
        arr = numpy.asarray(v)
        kind = kind_of(arr)
        shp = arr.shape
        data = {i: arr[i].item() for i in itertools.product(*[range(d) for d in shp])} if arr.size <= MAXC else None
        if data is None:
            raise Unsupported("large concrete array")
        return from_dict(data, shp, kind)
    if isinstance(v, SymRangeBase):
        return Tensor.new(lambda idx: v.get(idx[0]), (v.n,), "int")
    return scalar(v)


class SymRangeBase:
    pass


def from_list_obj(items):
    def fn(idx):
        return items[core.concretize_int(idx[0])]
    return Tensor.new(fn, (len(items),), "obj")


def from_dict(data, shp, kind):
    keys = list(data)

    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            return data[tuple(idx)]
        r = None
        for k in reversed(keys):
            c = and_(*[i == q for i, q in zip(idx, k)])
            if zbool(c) is False:
                continue
            r = data[k] if r is None else ite(c, data[k], r)
        return r if r is not None else 0
    return Tensor.new(fn, shp, kind)


def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for a in range(nd):
        dims = []
        for s in shapes:
            i = a - (nd - len(s))
            if i >= 0:
                dims.append(s[i])
        res = 1
        for d in dims:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(res, int) and res == 1:
                res = d
                continue
            if isinstance(d, int) and isinstance(res, int):
                if d != res:
                    raise NpValueError("operands could not be broadcast together")
                continue
            if z3.simplify(znum(d) == znum(res)).eq(z3.BoolVal(True)) or ctx().must(mkbool(znum(d) == znum(res))):
                if isinstance(d, int):
                    res = d
                continue
            # fork: equal / one of them is 1 / error
            if bool(mkbool(znum(d) == znum(res))):
                if isinstance(d, int):
                    res = d
                continue
            if dim_eq(d, 1):
                continue
            if dim_eq(res, 1):
                res = d
                continue
            raise NpValueError("operands could not be broadcast together")
        out.append(res)
    return tuple(out)


def bidx(shape, out_shape):
    """index translation for broadcasting"""
    nd, n = len(out_shape), len(shape)
    flags = []
    for a in range(n):
        d = shape[a]
        o = out_shape[a + nd - n]
        if isinstance(d, int) and d == 1:
            flags.append(True)
        elif isinstance(d, int) or d is o:
            flags.append(False)
        elif z3.simplify(znum(d) == znum(o)).eq(z3.BoolVal(True)):
            flags.append(False)
        elif isinstance(o, int) and o == 1:
            flags.append(True)
        else:
            if ctx().must(mkbool(znum(d) == znum(o))):
                flags.append(False)
            else:
                flags.append(dim_eq(d, 1))
    off = nd - n

    def f(idx):
        return tuple(0 if fl else idx[a + off] for a, fl in enumerate(flags))
    return f


def broadcast_to(t, shape):
    t = astensor(t)
    shape = tuple(normint(d) for d in shape)
    if len(t.shape) > len(shape):
        raise NpValueError("could not broadcast")
    if len(t.shape) == len(shape) and all(a is b or (isinstance(a, int) and isinstance(b, int) and a == b) for a, b in zip(t.shape, shape)):
        return t
    for a in range(len(t.shape)):
        d, o = t.shape[a], shape[a + len(shape) - len(t.shape)]
        if isinstance(d, int) and d == 1:
            continue
        if not dim_eq(d, o):
            if dim_eq(d, 1):
                continue
            raise NpValueError("could not broadcast input array")
    f = bidx(t.shape, shape)
    rd = t.reader()
    return Tensor.new(lambda idx: rd(f(idx)), shape, t.kind)


def elementwise1(t, fn, kind=None):
    if not hasattr(t, "_tensor_"):
        if isinstance(t, (list, tuple)) or is_vlist(t):
            t = astensor(t)
        else:
            return fn(t)
    rd = t.reader()
    return Tensor.new(memo_fn(lambda idx: fn(rd(idx))), t.shape, kind or t.kind)


def memo_fn(f):
    """evaluate each (syntactic) index once per path"""
    cache = {}

    def g(idx):
        key = tuple(i if isinstance(i, int) else ("t", i.e.get_id() if isinstance(i, SymNum) else id(i)) for i in idx)
        if key in cache:
            return cache[key][0]
        v = f(idx)
        cache[key] = (v, idx)
        return v
    return g


def elementwise2(a, b, fn, kind=None):
    ta, tb = hasattr(a, "_tensor_"), hasattr(b, "_tensor_")
    if not ta and not tb:
        return fn(a, b)
    a, b = astensor(a), astensor(b)
    shp = broadcast_shapes(a.shape, b.shape)
    fa, fb = bidx(a.shape, shp), bidx(b.shape, shp)
    ra, rb = a.reader(), b.reader()
    if kind == "div":
        kind = join_kind(a.kind, b.kind, "real")
    if kind is None:
        kind = join_kind(a.kind, b.kind)
        if kind == "bool":
            kind = "bool"
    out = Tensor.new(memo_fn(lambda idx: fn(ra(fa(idx)), rb(fb(idx)))), shp, kind)
    if not shp:
        return out.at(())
    return out


def elementwise_n(ts, fn, kind):
    ts = [astensor(t) for t in ts]
    shp = broadcast_shapes(*[t.shape for t in ts])
    fs = [bidx(t.shape, shp) for t in ts]
    rs = [t.reader() for t in ts]
    out = Tensor.new(memo_fn(lambda idx: fn(*[r(f(idx)) for r, f in zip(rs, fs)])), shp, kind)
    return out if shp else out.at(())


def transpose(t, axes=None):
    if axes is None:
        axes = tuple(range(t.ndim))[::-1]
    axes = tuple(a % t.ndim for a in axes)
    pm, pi = t._map, t._inv
    shape = tuple(t.shape[a] for a in axes)

    def mp(idx):
        p = [None] * len(axes)
        for i, a in zip(idx, axes):
            p[a] = i
        p = tuple(p)
        return pm(p) if pm else p

    def inv(s):
        c, p = pi(s) if pi else (True, s)
        return c, tuple(p[a] for a in axes)
    return Tensor(t.st, shape, mp, inv)


def moveaxis(t, src, dst):
    t = astensor(t)
    if isinstance(src, (list, tuple)):
        if len(src) != 1:
            src = [s % t.ndim for s in src]
            dst = [d % t.ndim for d in dst]
            order = [n for n in range(t.ndim) if n not in src]
            for d, s in sorted(zip(dst, src)):
                order.insert(d, s)
            return transpose(t, order)
        src, dst = src[0], dst[0]
    src, dst = src % t.ndim, dst % t.ndim
    order = [n for n in range(t.ndim) if n != src]
    order.insert(dst, src)
    return transpose(t, order)


def squeeze(t, axis=None):
    t = astensor(t)
    if axis is None:
        axes = [i for i, d in enumerate(t.shape) if dim_eq(d, 1)]
    else:
        axes = [a % t.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for a in axes:
            if not dim_eq(t.shape[a], 1):
                raise NpValueError("cannot select an axis to squeeze out which has size not equal to one")
    key = [0 if i in axes else slice(None) for i in range(t.ndim)]
    v = t._view(key)
    return v


def expand_dims(t, axis):
    t = astensor(t)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = t.ndim + len(axes)
    axes = [a % nd for a in axes]
    key = [None if i in axes else slice(None) for i in range(nd)]
    return t._view(key)


def reshape(t, shape):
    t = astensor(t)
    if not isinstance(shape, (tuple, list)) and not is_vlist(shape):
        shape = (shape,)
    shape = [normint(d) for d in shape]
    tot = t.size
    if any(isinstance(d, int) and d == -1 for d in shape):
        i = next(i for i, d in enumerate(shape) if isinstance(d, int) and d == -1)
        rest = dim_prod([d for j, d in enumerate(shape) if j != i])
        if isinstance(rest, int) and rest == 1:
            shape[i] = tot
        elif isinstance(rest, int) and isinstance(tot, int):
            if rest == 0 or tot % rest:
                raise NpValueError("cannot reshape array")
            shape[i] = tot // rest
        else:
            # symbolic: cancel a common factor
            shape[i] = cancel_dim(t.shape, [d for j, d in enumerate(shape) if j != i])
    elif not dim_eq(dim_prod(shape), tot):
        raise NpValueError("cannot reshape array")
    old = list(t.shape)
    shape = tuple(shape)
    # only insertion/removal of unit axes: a view
    o2 = [d for d in old if not (isinstance(d, int) and d == 1)]
    s2 = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if len(o2) == len(s2) and all(z3.simplify(znum(a) == znum(b)).eq(z3.BoolVal(True)) for a, b in zip(o2, s2)):
        key1 = [0 if (isinstance(d, int) and d == 1) else slice(None) for d in old]
        v = t._view(key1)
        key2 = [None if (isinstance(d, int) and d == 1) else slice(None) for d in shape]
        return v._view(key2)
    rd = t.reader()
    src = tuple(old)

    def fn(idx):
        flat = 0
        for i, d in zip(idx, shape):
            flat = flat * d + i
        flat = normint(flat)
        out = []
        # decompose flat over src dims (last fastest)
        rem = flat
        for d in reversed(src[1:]):
            if isinstance(d, int) and d == 1:
                out.append(0)
                continue
            q, r = core.divmod_(rem, d)
            out.append(r)
            rem = q
        out.append(rem)
        return rd(tuple(reversed(out)))
    return Tensor.new(memo_fn(fn), shape, t.kind)


def cancel_dim(old, known):
    old = list(old)
    for k in known:
        for i, d in enumerate(old):
            if (isinstance(k, int) and isinstance(d, int) and k == d) or (not isinstance(k, int) and not isinstance(d, int) and z3.simplify(k.e == d.e).eq(z3.BoolVal(True))):
                old.pop(i)
                break
        else:
            if isinstance(k, int) and k == 1:
                continue
            raise Unsupported("symbolic reshape")
    return dim_prod(old)


def concatenate(ts, axis=0):
    ts = [astensor(t) for t in ts]
    if not ts:
        raise NpValueError("need at least one array to concatenate")
    if axis is None:
        ts = [reshape(t, (-1,)) for t in ts]
        axis = 0
    nd = ts[0].ndim
    if nd == 0:
        raise NpValueError("zero-dimensional arrays cannot be concatenated")
    for t in ts:
        if t.ndim != nd:
            raise NpValueError("all the input array dimensions must match")
    axis %= nd
    for t in ts[1:]:
        for a in range(nd):
            if a != axis and not dim_eq(t.shape[a], ts[0].shape[a]):
                raise NpValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [0]
    for t in ts:
        offs.append(normint(offs[-1] + t.shape[axis]))
    rds = [t.reader() for t in ts]
    kind = join_kind(*[t.kind for t in ts])
    shape = list(ts[0].shape)
    shape[axis] = offs[-1]

    def fn(idx):
        i = idx[axis]

        def part(q):
            j = list(idx)
            j[axis] = normint(i - offs[q])
            return cast(rds[q](tuple(j)), kind)
        nts = [q for q in range(len(ts)) if not (isinstance(ts[q].shape[axis], int) and ts[q].shape[axis] == 0)]
        if not nts:
            return 0
        if isinstance(i, int) and all(isinstance(o, int) for o in offs):
            for q in nts:
                if i < offs[q + 1]:
                    return part(q)
        res = part(nts[-1])
        for q in reversed(nts[:-1]):
            c = zbool(i < offs[q + 1]) if is_sym(i) or is_sym(offs[q + 1]) else i < offs[q + 1]
            if c is True:
                res = part(q)
            elif c is False:
                continue
            else:
                res = ite(c, part(q), res)
        return res
    return Tensor.new(memo_fn(fn), shape, kind)


def stack_(ts, axis=0):
    ts = [astensor(t) for t in ts]
    nd = ts[0].ndim + 1
    axis %= nd
    for t in ts[1:]:
        if t.ndim != ts[0].ndim or not all(dim_eq(a, b) for a, b in zip(t.shape, ts[0].shape)):
            raise NpValueError("all input arrays must have the same shape")
    kind = join_kind(*[t.kind for t in ts])
    rds = [t.reader() for t in ts]
    shape = list(ts[0].shape)
    shape.insert(axis, len(ts))

    def fn(idx):
        i = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if isinstance(i, int):
            return cast(rds[i](rest), kind)
        r = cast(rds[-1](rest), kind)
        for q in range(len(rds) - 2, -1, -1):
            r = ite(i == q, cast(rds[q](rest), kind), r)
        return r
    return Tensor.new(fn, shape, kind)


# ------------------------------------------------------------------ big operators
class Lam:
    """a symbolic-length reduction: op over f(0..n-1)"""

    def __init__(self, op, n, f, term):
        self.op, self.n, self.f, self.term = op, n, f, term


def big_op(op, n, f, kind):
    """sum / prod / max / min / any / all of f(i), 0<=i<n with symbolic n"""
    c = ctx()
    depth = getattr(c, "lam_depth", 0)
    b = z3.Int(f"$b{depth}")
    names0 = dict(c.names)
    try:
        with no_branch():
            body = f(SymNum(b))
        ok = c.names == names0 and not isinstance(body, (Nan, MaybeNan, Cplx))
    except Unsupported:
        ok = False
        body = None
    if isinstance(body, Cplx):
        return Cplx(big_op(op, n, lambda i: Cplx.of(f(i)).re, kind), big_op(op, n, lambda i: Cplx.of(f(i)).im, kind))
    if ok and op == "sum" and not is_sym(body):
        return n * body
    if op in ("any", "all"):
        key = ("lam", op, str(z3.simplify(znum(n))), str(body.e.sexpr()) if ok and isinstance(body, SymBool) else None)
        if ok and key[3] and key in c.memo:
            return c.memo[key][0]
        t = c.fresh(op, "bool")
        lam = Lam(op, n, f, t)
        c.lams.append(lam)
        if op == "all":
            # not all -> witness
            w = c.fresh("w")
            fw = f(w)
            c.assume(or_(t, and_(w >= 0, w < n, not_(fw))))
        else:
            w = c.fresh("w")
            fw = f(w)
            c.assume(or_(not_(t), and_(w >= 0, w < n, fw)))
        lam.instantiate = lambda i: c.assume(core.implies(and_(i >= 0, i < n), core.implies(t, f(i)) if op == "all" else core.implies(f(i), t)))
        if ok and key[3]:
            c.memo[key] = (t, body)
        for d in (0,):
            lam.instantiate(d)
        if is_sym(n):
            lam.instantiate(n - 1)
        return t
    key = None
    if ok:
        key = ("lam", op, z3.simplify(znum(n), som=True).sexpr(), z3.simplify(znum(body), som=True).sexpr())
        if key in c.memo:
            return c.memo[key][0]
    int_kind = ok and znum(body).is_int()
    if depth and (body is None or _mentions_bound_outer(body, depth)):
        # value depends on an outer bound variable: apply an uninterpreted function to it
        outs = [z3.Int(f"$b{d}") for d in range(depth)] + [z3.Int("$m")]
        fn = c.fresh_fn(op, len(outs), "int" if int_kind else "real")
        t = SymNum(fn(*outs))
        # such a term cannot be compared extensionally later
        if key is None:
            raise Unsupported("nested symbolic reduction")
    else:
        t = c.fresh(op, "int" if int_kind else "real")
    lam = Lam(op, n, f, t)
    if op in ("sum", "prod"):
        c.assume(core.implies(n == 0, t == (0 if op == "sum" else 1)))
        if not depth:
            c.assume(core.implies(n == 1, t == f(0)))
        if op == "sum" and ok and isinstance(body, SymNum):
            sq = body.e
            if c.must(SymNum(sq) >= 0) if False else False:
                c.assume(t >= 0)
    else:
        w = c.fresh("w")
        fw = f(w)
        c.assume(core.implies(n >= 1, and_(w >= 0, w < n, t == fw)))
        lam.instantiate = lambda i: c.assume(core.implies(and_(i >= 0, i < n), (t >= f(i)) if op == "max" else (t <= f(i))))
        lam.instantiate(0)
        lam.instantiate(n - 1)
    c.lams.append(lam)
    if key:
        c.memo[key] = (t, body)
    return t


def _mentions_bound_outer(v, depth):
    e = znum(v) if is_sym(v) and not isinstance(v, SymBool) else (v.e if isinstance(v, SymBool) else None)
    if e is None:
        return False
    names = {f"$b{d}" for d in range(depth)} | {"$m"}
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        todo.extend(x.children())
    return False


def lam_lemmas():
    """extensionality: two reductions over equal ranges with equal bodies are equal. Returns True when a new fact was added."""
    c = ctx()
    new = False
    done = c.memo.setdefault("lamdone", set())
    for i, l1 in enumerate(c.lams):
        for j in range(i):
            l2 = c.lams[j]
            if l1.op != l2.op or (i, j) in done:
                continue
            done.add((i, j))
            if l1.op in ("any", "all"):
                continue
            if not c.must(l1.n == l2.n):
                continue
            k = c.fresh("sk")
            inr = and_(k >= 0, k < l1.n)
            try:
                e = l1.f(k) == l2.f(k)
                if c.must(core.implies(inr, e)):
                    c.assume(l1.term == l2.term)
                    new = True
            except Unsupported:
                continue
    return new


def reduce_(t, op, axis=None, keepdims=False):
    t = astensor(t)
    if axis is None:
        axes = list(range(t.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [a % t.ndim for a in axis]
    else:
        a = core.concretize_int(axis) if is_sym(axis) else axis
        if not -t.ndim <= a < t.ndim:
            raise NpIndexError("axis out of bounds")
        axes = [a % t.ndim]
    if op == "mean":
        s = reduce_(t, "sum", axis, keepdims)
        n = dim_prod([t.shape[a] for a in axes])
        return elementwise1(s, lambda v: div_(v, n) if not isinstance(n, SymNum) or True else v, "real") if hasattr(s, "_tensor_") else div_(cast(s, "real"), n)
    rd = t.reader()
    keep = [a for a in range(t.ndim) if a not in axes]
    kind = t.kind
    if op in ("any", "all"):
        kind = "bool"
    elif op in ("sum", "prod") and kind == "bool":
        kind = "int"
    if op in ("max", "min"):
        for a in axes:
            if dim_eq(t.shape[a], 0):
                raise NpValueError(f"zero-size array to reduction operation {op} which has no identity")

    def at(rest):
        def rec(fixed, todo):
            if not todo:
                idx = [None] * t.ndim
                for a, v in zip(keep, rest):
                    idx[a] = v
                for a, v in fixed:
                    idx[a] = v
                v = rd(tuple(idx))
                if op in ("any", "all"):
                    v = v if isinstance(v, (bool, SymBool)) else v != 0
                elif isinstance(v, (bool, SymBool)) and op in ("sum", "prod"):
                    v = v._n() if isinstance(v, SymBool) else int(v)
                return v
            a = todo[0]
            n = t.shape[a]
            if not conc_dim(n):
                n = core.try_concrete(n)
            if conc_dim(n):
                if n > MAXC:
                    raise Unsupported("long concrete reduction")
                vals = [rec(fixed + [(a, i)], todo[1:]) for i in range(n)]
                return fold(op, vals)
            return big_op(op, n, lambda i: rec(fixed + [(a, i)], todo[1:]), kind)
        return rec([], axes)
    if keepdims:
        shape = [1 if a in axes else d for a, d in enumerate(t.shape)]
        return Tensor.new(memo_fn(lambda idx: at(tuple(idx[a] for a in keep))), shape, kind)
    shape = [t.shape[a] for a in keep]
    if not shape:
        return at(())
    return Tensor.new(memo_fn(at), shape, kind)


def fold(op, vals):
    if op == "sum":
        r = 0
        for v in vals:
            r = v if isinstance(r, int) and r == 0 else r + v
        return r
    if op == "prod":
        r = 1
        for v in vals:
            r = r * v
        return r
    if op == "all":
        return and_(*vals)
    if op == "any":
        return or_(*vals)
    r = vals[0]
    for v in vals[1:]:
        r = core.max_(r, v) if op == "max" else core.min_(r, v)
    return r


def matmul(a, b):
    a, b = astensor(a), astensor(b)
    if a.ndim == 0 or b.ndim == 0:
        raise NpValueError("matmul: 0-d")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a._view([None, slice(None)])
    if vb:
        b = b._view([slice(None), None])
    if not dim_eq(a.shape[-1], b.shape[-2]):
        raise NpValueError("matmul: mismatch in core dimension")
    batch = broadcast_shapes(a.shape[:-2], b.shape[:-2])
    n = a.shape[-1]
    shape = list(batch) + [a.shape[-2], b.shape[-1]]
    fa, fb = bidx(a.shape[:-2], batch), bidx(b.shape[:-2], batch)
    ra, rb = a.reader(), b.reader()
    kind = join_kind(a.kind, b.kind)

    def fn(idx):
        bt, i, j = idx[:-2], idx[-2], idx[-1]
        ia, ib = fa(bt), fb(bt)
        f = lambda k: ra(ia + (i, k)) * rb(ib + (k, j))
        nn = core.try_concrete(n) if not conc_dim(n) else n
        if conc_dim(nn):
            return fold("sum", [f(k) for k in range(nn)])
        return big_op("sum", nn, f, kind)
    out = Tensor.new(memo_fn(fn), shape, kind)
    key = [slice(None)] * (len(shape) - 2) + [0 if va else slice(None), 0 if vb else slice(None)]
    if va or vb:
        out = out._view(key)
        if out.ndim == 0:
            return out.at(())
    return out
