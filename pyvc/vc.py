"""The runtime object `_vcR` seen by the transformed source, and the built-ins it runs with."""
import builtins
import copy as _copy
import math
import types
import z3
from . import core, tensor
from .core import SymNum, SymBool, SymStr, Unsupported, is_sym, ctx
from .tensor import Tensor, normint, kind_of
from .containers import VList, VDict, SymIter, SymRange, symiter_of, vrange, venumerate, vzip, sum_list, sort_sym
from .loops import for_loop, while_loop
from .loader import Loader


class Dummy:
    """stand-in for plotting and other modules without semantic effect on the properties"""

    def __init__(self, name="dummy"):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return Dummy(self._name + "." + k)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Dummy(self._name + "()")

    def __iter__(self):
        return iter([Dummy(self._name + "[0]"), Dummy(self._name + "[1]")])

    def __getitem__(self, k):
        return Dummy(self._name + "[]")

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __deepcopy__(self, m):
        return self

    def __mro_entries__(self, bases):
        return (object,)


NATIVE = {"abc", "copy", "json", "pathlib", "itertools", "functools", "dataclasses", "warnings", "datetime", "time", "os", "re",
          "collections", "collections.abc", "operator", "typing", "enum", "string", "sys", "pickle", "io", "shutil", "glob", "types", "contextlib",
          "inspect", "__future__", "textwrap", "numbers", "fractions", "random", "logging", "tempfile", "hashlib", "struct", "csv"}


class VC:
    def __init__(self):
        from . import npshim
        self.np = npshim.numpy
        self.loader = Loader(self)
        from . import externals
        self.externals = externals.build(self)
        self.builtins = self._builtins()
        self.native_fallback = set(NATIVE)
        self.prints = []

    # ---- called from transformed code
    def for_(self, it, site, get, set_):
        return for_loop(it, site, get, set_)

    def while_(self, cond, site, get, set_):
        return while_loop(cond, site, get, set_)

    def list(self, l):
        return VList(l)

    def dict(self, d):
        return VDict(d)

    def listcomp(self, it, f, filtered):
        s = symiter_of(it)
        if s is None:
            return VList(f(iter(it)))
        if filtered:
            raise Unsupported("filtered comprehension of symbolic length")
        return VList.sym(s.n, lambda i: f(iter((s.get(i),)))[0])

    def genexp(self, it, f, filtered):
        s = symiter_of(it)
        if s is None:
            return f(iter(it))
        if filtered:
            raise Unsupported("filtered generator of symbolic length")
        return SymIter(s.n, lambda i: next(f(iter((s.get(i),)))))

    def dictcomp(self, it, f, filtered):
        if symiter_of(it) is not None:
            raise Unsupported("dict comprehension of symbolic length")
        return VDict(f(iter(it)))

    def setcomp(self, it, f, filtered):
        if symiter_of(it) is not None:
            raise Unsupported("set comprehension of symbolic length")
        return f(iter(it))

    def fstr(self, *parts):
        out = ""
        for p in parts:
            if isinstance(p, str):
                out = out + p
                continue
            v, conv, spec = p
            if isinstance(v, SymNum):
                c = core.try_concrete(v)
                if isinstance(c, int):
                    v = c
            if isinstance(v, SymNum) and v.is_int and not spec and conv == -1:
                out = out + core.str_of_int(v) if out != "" else core.str_of_int(v)
                continue
            if isinstance(v, SymStr) and not spec and conv in (-1, 115):
                out = v if out == "" else out + v
                continue
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            out = out + format(v, spec or "")
        return out

    # ---- built-ins
    def _builtins(self):
        b = dict(vars(builtins))
        b.update(VB)
        b["__import__"] = self.loader_import
        b["__build_class__"] = self.build_class
        b["print"] = lambda *a, **k: None
        return b

    def loader_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        return self.loader.imp(name, globals, locals, fromlist, level)

    def import_external(self, name, fromlist):
        root = name.split(".")[0]
        if name in self.externals:
            m = self.externals[name]
            if fromlist:
                return m
            return self.externals.get(root, m)
        if name in self.native_fallback or root in self.native_fallback:
            return __import__(name, fromlist=list(fromlist) if fromlist else [])
        if root in self.externals:
            m = self.externals[root]
            if not fromlist:
                return m
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        d = Dummy(root)
        if not fromlist:
            return d
        for p in name.split(".")[1:]:
            d = getattr(d, p)
        return d

    def build_class(self, func, name, *bases, **kw):
        cls = builtins.__build_class__(func, name, *bases, **kw)
        if not isinstance(cls, type) or issubclass(cls, BaseException):
            return cls
        if "__setattr__" not in cls.__dict__ and not any("_vc_cls_" in k.__dict__ for k in cls.__mro__[1:]):
            def __setattr__(self, k, v, _o=object.__setattr__):
                c = core.Ctx.cur
                if c is not None and c.loop_stack:
                    for lp in c.loop_stack:
                        lp.note_attr(self, k)
                _o(self, k, v)
            cls.__setattr__ = __setattr__
            if cls.__new__ is object.__new__:
                def __new__(cls, *a, **k):
                    o = object.__new__(cls)
                    register(o)
                    return o
                cls.__new__ = __new__
            cls._vc_cls_ = True
        return cls

    def load(self, name):
        return self.loader.load(name)


def register(o):
    c = core.Ctx.cur
    if c is not None:
        try:
            o.__dict__["_vc_serial"] = c.serial
        except AttributeError:
            return
        c.objs[c.serial] = o
        c.serial += 1


# ------------------------------------------------------------------ builtin replacements
class _TypeProxyMeta(type):
    pass


def v_isinstance(o, t):
    if isinstance(t, tuple):
        return any(v_isinstance(o, x) for x in t)
    if t is v_int:
        t = int
    elif t is v_float:
        t = float
    elif t is v_bool:
        t = bool
    elif t is v_str:
        t = str
    elif t is v_list:
        t = list
    elif t is v_tuple:
        t = tuple
    elif t is v_dict:
        t = dict
    if isinstance(o, SymBool):
        return t is bool or t is int or getattr(t, "_np_bool_", False)
    if isinstance(o, SymNum):
        if t is int:
            return o.is_int
        if t is float:
            return not o.is_int
        if getattr(t, "_np_int_", False) or getattr(t, "_np_float_", False):
            return False
        if getattr(t, "__module__", "") == "numbers":
            return t.__name__ in (("Integral", "Rational", "Real", "Complex", "Number") if o.is_int else ("Real", "Complex", "Number"))
        return False
    if isinstance(o, (core.Nan, core.MaybeNan)):
        return t is float
    if isinstance(o, SymStr):
        return t is str
    if isinstance(t, Dummy):
        return False
    if isinstance(o, SymRange) and t is range:
        return True
    return isinstance(o, t)


def _np_scalar(v):
    if hasattr(v, "_tensor_"):
        if v.ndim == 0 or v.size == 1:
            return v.item()
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return v


class v_int(int):
    """`int` in the verified source: also truncates symbolic numbers"""
    def __new__(cls, v=0, *a):
        v = _np_scalar(v)
        if isinstance(v, SymStr):
            c = ctx()
            d = mkdigits(v.e)
            if bool(core.mkbool(d)):
                return SymNum(z3.StrToInt(v.e))
            raise ValueError("invalid literal for int()")
        if is_sym(v):
            return core.trunc_(v)
        if isinstance(v, (core.Nan, core.MaybeNan)):
            if isinstance(v, core.MaybeNan) and not bool(v.c):
                return v_int(v.v)
            raise ValueError("cannot convert float NaN to integer")
        return int(v, *a)


def mkdigits(e):
    dig = z3.Plus(z3.Range("0", "9"))
    return z3.InRe(e, dig)


class v_float(float):
    def __new__(cls, v=0.0):
        v = _np_scalar(v)
        if is_sym(v):
            return tensor.cast(v, "real")
        if isinstance(v, (core.Nan, core.MaybeNan)):
            return v
        if isinstance(v, str) and v.lower() == "nan":
            return core.Nan()
        return float(v)


class v_bool:
    def __new__(cls, v=False):
        v = _np_scalar(v)
        return bool(v)


class v_str(str):
    def __new__(cls, v="", *a):
        if isinstance(v, SymStr):
            return v
        if isinstance(v, SymNum):
            c = core.try_concrete(v)
            if isinstance(c, int):
                return str(c)
            if v.is_int:
                return core.str_of_int(v)
        return str(v, *a)


class v_list(list):
    def __new__(cls, it=()):
        s = symiter_of(it)
        if s is not None:
            return VList.sym(s.n, s.get)
        return VList(it)


class v_tuple(tuple):
    def __new__(cls, it=()):
        s = symiter_of(it)
        if s is not None:
            return VList.sym(s.n, s.get)
        return tuple(it)


class v_dict(dict):
    def __new__(cls, *a, **k):
        return VDict(*a, **k)


for _c in (v_int, v_float, v_bool, v_str, v_list, v_tuple, v_dict):
    _c.__name__ = _c.__qualname__ = _c.__name__[2:]


def v_len(o):
    if hasattr(o, "_len") and not isinstance(o, type):
        n = o._len()
        return core.try_concrete(n) if is_sym(n) else n
    return len(o)


def v_abs(x):
    return abs(x)


def _items(a):
    if len(a) == 1:
        return a[0]
    return a


def v_min(*a, key=None, default=None):
    return _minmax("min", a, key, default)


def v_max(*a, key=None, default=None):
    return _minmax("max", a, key, default)


def _minmax(op, a, key, default):
    it = _items(a)
    s = symiter_of(it)
    if s is not None:
        if key is not None:
            raise Unsupported("min/max key")
        if bool(s.n == 0):
            if default is not None:
                return default
            raise ValueError(f"{op}() arg is an empty sequence")
        return tensor.big_op(op, s.n, s.get, "real")
    vals = [(_np_scalar(v) if hasattr(v, "_tensor_") and v.ndim == 0 else v) for v in it]
    if not vals:
        if default is not None:
            return default
        raise ValueError(f"{op}() arg is an empty sequence")
    if key is not None or any(not (tensor.scalar_ok(v)) for v in vals):
        r = vals[0]
        kf = key or (lambda x: x)
        for v in vals[1:]:
            if bool(kf(v) < kf(r) if op == "min" else kf(v) > kf(r)):
                r = v
        return r
    if not any(is_sym(v) for v in vals):
        return (min if op == "min" else max)(vals)
    r = vals[0]
    for v in vals[1:]:
        # python keeps the first of equals
        r = core.min_(r, v) if op == "min" else core.max_(r, v)
    return r


def v_sum(it, start=0):
    if isinstance(it, VList) and not it.concrete and core.is_sym(it.sn):
        return it.total() if isinstance(start, int) and start == 0 else start + it.total()
    s = symiter_of(it)
    if s is not None:
        return start + tensor.big_op("sum", s.n, s.get, "real")
    r = start
    for v in it:
        r = r + v
    return r


def v_all(it):
    s = symiter_of(it)
    if s is not None:
        return tensor.big_op("all", s.n, lambda i: _tb(s.get(i)), "bool")
    for v in it:
        if not bool(v):
            return False
    return True


def v_any(it):
    s = symiter_of(it)
    if s is not None:
        return tensor.big_op("any", s.n, lambda i: _tb(s.get(i)), "bool")
    for v in it:
        if bool(v):
            return True
    return False


def _tb(v):
    return v if isinstance(v, (bool, SymBool)) else v != 0


def v_round(x, nd=None):
    if is_sym(x):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


class SymIterator:
    def __init__(self, s):
        self.s = s
        self.i = 0
        register(self)

    def __iter__(self):
        return self


def v_iter(o, *a):
    if a:
        return iter(o, *a)
    s = symiter_of(o)
    if s is not None:
        return SymCursor(s)
    return iter(o)


class SymCursor:
    """iterator over a symbolic-length sequence; position is explicit state"""

    def __init__(self, s):
        register(self)
        self.s = s
        self.pos = 0

    def __setattr__(self, k, v):
        c = core.Ctx.cur
        if c is not None and c.loop_stack:
            for lp in c.loop_stack:
                lp.note_attr(self, k)
        object.__setattr__(self, k, v)

    def __iter__(self):
        return self

    def __next__(self):
        if bool(self.pos < self.s.n):
            v = self.s.get(self.pos)
            self.pos = normint(self.pos + 1)
            return v
        raise StopIteration


def v_next(it, *default):
    if isinstance(it, SymIter):
        raise TypeError("not an iterator")
    return next(it, *default)


def v_reversed(o):
    s = symiter_of(o)
    if s is not None:
        return SymIter(s.n, lambda i: s.get(normint(s.n - 1 - i)))
    return reversed(o)


def v_sorted(it, key=None, reverse=False):
    if symiter_of(it) is not None:
        raise Unsupported("sorted of symbolic length")
    items = list(it)
    kf = key or (lambda x: x)
    if any(is_sym(kf(x)) for x in items):
        return VList(sort_sym(items, key, reverse))
    return VList(sorted(items, key=key, reverse=reverse))


def v_divmod(a, b):
    return core.divmod_(a, b)


def v_hash(o):
    return hash(o)


class v_type(type):
    def __new__(cls, *a, **k):
        if len(a) == 1:
            o = a[0]
            if isinstance(o, SymBool):
                return bool
            if isinstance(o, SymNum):
                return v_int if o.is_int else v_float
            if isinstance(o, SymStr):
                return v_str
            t = type(o)
            return {int: v_int, float: v_float, str: v_str, VList: v_list, VDict: v_dict, tuple: v_tuple}.get(t, t)
        return type(*a, **k)


VB = dict(isinstance=v_isinstance, int=v_int, float=v_float, bool=v_bool, str=v_str, list=v_list, tuple=v_tuple, dict=v_dict,
          len=v_len, range=vrange, min=v_min, max=v_max, sum=v_sum, abs=v_abs, enumerate=venumerate, zip=vzip, all=v_all, any=v_any,
          round=v_round, iter=v_iter, next=v_next, reversed=v_reversed, sorted=v_sorted, divmod=v_divmod)
