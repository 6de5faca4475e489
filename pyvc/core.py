"""Symbolic scalars, path exploration and proof obligations (z3 back end).

The real source text of /repo is executed by CPython on these values: every
branch on a symbolic condition forks the exploration, every obligation is the
validity of a formula under the path condition.
"""
import fractions
import math
import time
import os
import z3

INF = float("inf")


class Unsupported(Exception):
    """Code or operation outside the subset the generator handles (=> undecided, never a violation)."""


class PathEnd(BaseException):
    """This path is finished (assumption false, or loop body verified)."""


class PathAbort(BaseException):
    """Exploration limits hit."""


# ---------------------------------------------------------------- context
class Obligation:
    __slots__ = ("name", "status", "backend", "time", "model", "path", "detail", "definite", "abstract")

    def __init__(self, name):
        self.name = name
        self.status = None
        self.backend = ""
        self.time = 0.0
        self.model = None
        self.path = ()
        self.detail = ""
        self.definite = True
        self.abstract = False


class Ctx:
    cur = None

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.feas_timeout)
        self.pc = []
        self.names = {}
        self.fresh_n = 0
        self.choices = []
        self.modcache = {}
        self.memo = {}
        self.lams = []
        self.abstract = False      # path relies on abstraction (loop cut etc.): a sat answer is not definite
        self.serial = 0
        self.loop_stack = []
        self.loop_count = {}
        self.last_loop_k = None
        self.inputs = []
        self.objs = {}
        self.trace = []
        self.in_invariant = 0
        self.eqs = []              # oriented equations (atom, term) from loop invariants, used as rewrite rules

    def note_eq(self, z):
        if isinstance(z, bool) or not z3.is_eq(z):
            return
        a, b = z.children()
        for x, y in ((a, b), (b, a)):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.RealSort() and not occurs(x, y):
                self.eqs.append((x, y))
                return

    # -- names
    def fresh(self, base, sort="int"):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        nm = base if n == 0 else f"{base}!{n}"
        if sort == "int":
            return SymNum(z3.Int(nm))
        if sort == "real":
            return SymNum(z3.Real(nm))
        if sort == "bool":
            return SymBool(z3.Bool(nm))
        if sort == "str":
            return SymStr(z3.String(nm))
        raise ValueError(sort)

    def fresh_fn(self, base, nargs, sort="real"):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        nm = base if n == 0 else f"{base}!{n}"
        dom = [z3.IntSort()] * nargs
        rng = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[sort]
        return z3.Function(nm, *dom, rng)

    # -- path condition
    def assume(self, c):
        c = zbool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.engine.solver_time += time.time() - t
        self.engine.queries += 1
        return r

    def decide(self, n, label=""):
        """Nondeterministic choice among n alternatives (all explored)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.engine.work.append(self.taken + [k])
        self.pos += 1
        self.taken.append(d)
        if len(self.taken) > self.engine.max_depth:
            raise PathAbort("decision depth")
        return d

    def branch(self, cond):
        """Truth value of symbolic cond; forks when both are possible."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            c = cond if d == 0 else z3.Not(cond)
            self.pc.append(c)
            self.solver.add(c)
            return d == 0
        t = self.check(cond)
        if t == z3.unsat:
            self.pos += 1
            self.taken.append(1)
            self.prefix.append(1)
            c = z3.Not(cond)
            self.pc.append(c); self.solver.add(c)
            return False
        f = self.check(z3.Not(cond))
        self.pos += 1
        if f == z3.unsat:
            self.taken.append(0)
            self.prefix.append(0)
            self.pc.append(cond); self.solver.add(cond)
            return True
        self.engine.work.append(self.taken + [1])
        self.taken.append(0)
        self.prefix.append(0)
        if len(self.taken) > self.engine.max_depth:
            raise PathAbort("decision depth")
        self.pc.append(cond); self.solver.add(cond)
        return True

    def must(self, cond):
        """True when cond is provably true on this path (no fork)."""
        c = zbool(cond)
        if c is True or c is False:
            return c
        key = ("must", c.get_id(), len(self.pc))
        if key in self.memo:
            return self.memo[key][0]
        r = self.check(z3.Not(c)) == z3.unsat
        self.memo[key] = (r, c)
        return r


def occurs(x, t):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        todo.extend(e.children())
    return False


def ctx():
    c = Ctx.cur
    if c is None:
        raise RuntimeError("no symbolic context")
    return c


# ---------------------------------------------------------------- conversion
def frac(v):
    if isinstance(v, float):
        f = fractions.Fraction(v)
        # floats in the source are decimal literals: keep their decimal meaning
        d = fractions.Fraction(repr(v))
        return d
    return v


def zreal(v):
    if isinstance(v, SymNum):
        e = v.e
        return z3.ToReal(e) if e.is_int() else e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("inf/nan as a real term")
        f = frac(v)
        return z3.RealVal(str(f))
    if isinstance(v, fractions.Fraction):
        return z3.RealVal(str(v))
    if hasattr(v, "item") and hasattr(v, "dtype"):
        return zreal(v.item())
    raise Unsupported(f"not a number: {type(v).__name__}")


def znum(v):
    if isinstance(v, SymNum):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if hasattr(v, "item") and hasattr(v, "dtype"):
        return znum(v.item())
    return zreal(v)


def zbool(v):
    """python bool or z3 BoolRef"""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, bool):
        return v
    if isinstance(v, z3.BoolRef):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return v
    if isinstance(v, SymNum):
        return (v != 0).e if isinstance(v != 0, SymBool) else bool(v != 0)
    if hasattr(v, "_to_scalar_bool"):
        return zbool(v._to_scalar_bool())
    return bool(v)


def mkbool(e):
    if isinstance(e, bool):
        return e
    if isinstance(e, SymBool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(e)


def mknum(e):
    """wrap, folding constants"""
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s):
        n, d = s.numerator_as_long(), s.denominator_as_long()
        return ConstReal(n, d)
    return SymNum(s if _size_ok(s, e) else e)


def _size_ok(s, e):
    return True


def ConstReal(n, d):
    """exact rational constant of float type"""
    v = n / d
    if abs(n) < 2 ** 52 and fractions.Fraction(repr(v)) == fractions.Fraction(n, d):
        return v
    return SymNum(z3.RealVal(f"{n}/{d}"))


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


def ite(c, a, b):
    c = zbool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Cplx) or isinstance(b, Cplx):
        a, b = Cplx.of(a), Cplx.of(b)
        return Cplx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, Nan) or isinstance(b, Nan) or isinstance(a, MaybeNan) or isinstance(b, MaybeNan):
        na, va = split_nan(a)
        nb, vb = split_nan(b)
        return mknan(ite(c, na, nb), ite(c, va, vb))
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        if isinstance(a, float) and a == b:
            return a
        # decide by forking: inf is not a term
        return a if ctx().branch(c) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        za, zb = zbool(a), zbool(b)
        za = z3.BoolVal(za) if isinstance(za, bool) else za
        zb = z3.BoolVal(zb) if isinstance(zb, bool) else zb
        return mkbool(z3.If(c, za, zb))
    za, zb = znum(a), znum(b)
    if za.is_int() != zb.is_int():
        za, zb = zreal(a), zreal(b)
    if za.eq(zb):
        return a
    return SymNum(z3.If(c, za, zb))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        s = z3.simplify(self.e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return ctx().branch(self.e)

    def __and__(self, o):
        if hasattr(o, "_tensor_"):
            return NotImplemented
        o = zbool(o)
        if o is True:
            return self
        if o is False:
            return False
        return mkbool(z3.And(self.e, o))
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "_tensor_"):
            return NotImplemented
        o = zbool(o)
        if o is True:
            return True
        if o is False:
            return self
        return mkbool(z3.Or(self.e, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = zbool(o)
        if isinstance(o, bool):
            return mkbool(z3.Not(self.e)) if o else self
        return mkbool(z3.Xor(self.e, o))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            o = zbool(o)
            if isinstance(o, bool):
                return self if o else ~self
            return mkbool(self.e == o)
        if isinstance(o, (int, float, SymNum)):
            return self._n() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = object.__hash__

    def _n(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __int__(self): return concretize_int(self._n())
    def __repr__(self): return f"SymBool({self.e})"

    def all(self): return self
    def any(self): return self
    shape = ()
    ndim = 0


def not_(v):
    v = zbool(v)
    if isinstance(v, bool):
        return not v
    return mkbool(z3.Not(v))


def and_(*vs):
    out = []
    for v in vs:
        v = zbool(v)
        if v is False:
            return False
        if v is True:
            continue
        out.append(v)
    if not out:
        return True
    return mkbool(z3.And(*out)) if len(out) > 1 else mkbool(out[0])


def or_(*vs):
    out = []
    for v in vs:
        v = zbool(v)
        if v is True:
            return True
        if v is False:
            continue
        out.append(v)
    if not out:
        return False
    return mkbool(z3.Or(*out)) if len(out) > 1 else mkbool(out[0])


def implies(a, b):
    return or_(not_(a), b)


def _isinf(o):
    return isinstance(o, float) and math.isinf(o)


def _bin_ok(o):
    return isinstance(o, (int, float, bool, SymNum, SymBool, fractions.Fraction)) or (
        hasattr(o, "dtype") and hasattr(o, "item") and getattr(o, "shape", None) == () and not hasattr(o, "_tensor_"))


class SymNum:
    __slots__ = ("e",)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.is_int()

    # -- arithmetic
    def _arith(self, o, fn, swap=False):
        if not _bin_ok(o):
            return NotImplemented
        a, b = self.e, znum(o)
        if a.is_int() != b.is_int():
            a = zreal(self)
            b = zreal(o)
        if swap:
            a, b = b, a
        return mknum(fn(a, b))

    def __add__(self, o):
        if _isinf(o):
            return o
        if isinstance(o, (Nan, MaybeNan)):
            return o + self
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _isinf(o):
            return o
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _isinf(o):
            return -o
        if isinstance(o, (Nan, MaybeNan)):
            return (-o) + self
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _isinf(o):
            return o
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (Nan, MaybeNan)):
            return o * self
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not _bin_ok(o):
            return NotImplemented
        if _isinf(o):
            return 0.0
        return mknum(zreal(self) / zreal(o))

    def __rtruediv__(self, o):
        if not _bin_ok(o):
            return NotImplemented
        return mknum(zreal(o) / zreal(self))

    def __floordiv__(self, o):
        if not _bin_ok(o):
            return NotImplemented
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        if not _bin_ok(o):
            return NotImplemented
        return divmod_(o, self)[0]

    def __mod__(self, o):
        if not _bin_ok(o):
            return NotImplemented
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        if not _bin_ok(o):
            return NotImplemented
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            if o == 0:
                return 1
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        if isinstance(o, float) and o == 0.5:
            return sqrt_(self)
        if isinstance(o, float) and o == 2.0:
            return self * self
        if isinstance(o, int) and o < 0:
            return 1 / (self ** (-o))
        return unary_uf("pow", self, o)

    def __rpow__(self, o):
        return unary_uf("pow", o, self)

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    # -- comparison
    def _cmp(self, o, fn):
        a, b = self.e, znum(o)
        if a.is_int() != b.is_int():
            a, b = zreal(self), zreal(o)
        return mkbool(fn(a, b))

    def __lt__(self, o):
        if _isinf(o): return o > 0
        if isinstance(o, (Nan, MaybeNan)): return o > self
        if not _bin_ok(o): return NotImplemented
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if _isinf(o): return o > 0
        if isinstance(o, (Nan, MaybeNan)): return o >= self
        if not _bin_ok(o): return NotImplemented
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if _isinf(o): return o < 0
        if isinstance(o, (Nan, MaybeNan)): return o < self
        if not _bin_ok(o): return NotImplemented
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if _isinf(o): return o < 0
        if isinstance(o, (Nan, MaybeNan)): return o <= self
        if not _bin_ok(o): return NotImplemented
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if _isinf(o): return False
        if isinstance(o, (Nan, MaybeNan)): return o == self
        if not _bin_ok(o): return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        # value hash: usable as a dict key only when the value is determined
        return hash(concretize_int(self))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        raise Unsupported("int() reached natively")

    def __float__(self):
        raise Unsupported("float() reached natively")

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            if self.is_int:
                return self
            return round_half_even(self)
        raise Unsupported("round with digits")

    def __floor__(self): return floor_(self)
    def __ceil__(self): return -floor_(-self)

    # numpy-scalar API
    def item(self): return self
    def any(self): return self != 0
    def all(self): return self != 0
    def copy(self): return self
    def tolist(self): return self
    @property
    def dtype(self):
        return int if self.is_int else float
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def astype(self, t):
        if t is int or getattr(t, "kind", "") == "i":
            return trunc_(self)
        return self if not self.is_int else mknum(zreal(self))
    @property
    def T(self): return self
    def is_integer(self):
        if self.is_int:
            return True
        return mkbool(z3.IsInt(self.e))

    def __repr__(self): return f"SymNum({self.e})"
    def __format__(self, spec):
        raise Unsupported("formatting a symbolic number")

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce_ex__(self, p): raise Unsupported("pickling a symbolic number")


class Nan:
    """the NaN value"""
    _i = None
    def __new__(cls):
        if cls._i is None:
            cls._i = object.__new__(cls)
        return cls._i
    def _n(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __abs__ = _n
    def _f(self, o): return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f
    def __ne__(self, o): return True
    __hash__ = object.__hash__
    def __repr__(self): return "NaN"


class MaybeNan:
    """value that is NaN when `c` holds, else v"""
    def __init__(self, c, v):
        self.c, self.v = c, v
    def _b(self, o, fn):
        no, vo = split_nan(o)
        return mknan(or_(self.c, no), fn(self.v, vo))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __neg__(self): return MaybeNan(self.c, -self.v)
    def __pow__(self, o): return MaybeNan(self.c, self.v ** o)
    def __abs__(self): return MaybeNan(self.c, abs(self.v))
    def _c(self, o, fn):
        no, vo = split_nan(o)
        return and_(not_(self.c), not_(no), fn(self.v, vo))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return not_(self == o)
    __hash__ = object.__hash__
    def __repr__(self): return f"MaybeNan({self.c},{self.v})"


def split_nan(v):
    if isinstance(v, Nan):
        return True, 0
    if isinstance(v, MaybeNan):
        return v.c, v.v
    if isinstance(v, float) and math.isnan(v):
        return True, 0
    return False, v


def mknan(c, v):
    c = zbool(c)
    if c is True:
        return Nan()
    if c is False:
        return v
    return MaybeNan(mkbool(c), v)


class Cplx:
    """complex number re + i im over symbolic reals"""
    __slots__ = ("re", "im")
    def __init__(self, re, im): self.re, self.im = re, im
    @staticmethod
    def of(v):
        if isinstance(v, Cplx): return v
        if isinstance(v, complex): return Cplx(v.real, v.imag)
        return Cplx(v, 0)
    def _ok(o): return isinstance(o, (Cplx, complex)) or _bin_ok(o)
    def __add__(self, o):
        if not Cplx._ok(o): return NotImplemented
        o = Cplx.of(o); return Cplx(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o):
        if not Cplx._ok(o): return NotImplemented
        o = Cplx.of(o); return Cplx(self.re - o.re, self.im - o.im)
    def __rsub__(self, o):
        return Cplx.of(o) - self
    def __mul__(self, o):
        if not Cplx._ok(o): return NotImplemented
        o = Cplx.of(o)
        return Cplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, (Cplx, complex)): raise Unsupported("complex division")
        return Cplx(self.re / o, self.im / o)
    def __neg__(self): return Cplx(-self.re, -self.im)
    def conj(self): return Cplx(self.re, -self.im)
    conjugate = conj
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def __eq__(self, o):
        if not Cplx._ok(o): return NotImplemented
        o = Cplx.of(o)
        return and_(self.re == o.re, self.im == o.im)
    def __ne__(self, o): return not_(self == o)
    __hash__ = object.__hash__
    def __repr__(self): return f"Cplx({self.re},{self.im})"


# ---------------------------------------------------------------- functions on scalars
def concretize_int(v):
    if isinstance(v, int):
        return int(v)
    if isinstance(v, SymNum):
        s = z3.simplify(v.e)
        if z3.is_int_value(s):
            return s.as_long()
        c = ctx()
        key = ("conc", v.e.get_id(), len(c.pc))
        if key in c.memo:
            r = c.memo[key][0]
        else:
            r = None
            if c.check() == z3.sat:
                m = c.solver.model().eval(v.e, model_completion=True)
                if z3.is_int_value(m) and c.check(v.e != m) == z3.unsat:
                    r = m.as_long()
            c.memo[key] = (r, v.e)
        if r is not None:
            return r
    raise Unsupported(f"symbolic value used where a concrete integer is needed: {v}")


def try_concrete(v):
    """int if determined on this path, else v"""
    if isinstance(v, SymNum) and v.is_int:
        try:
            return concretize_int(v)
        except Unsupported:
            return v
    return v


def divmod_(a, b):
    """python/numpy floor divmod"""
    if _isinf(b):
        if bool(a >= 0):
            return (0 if b > 0 else -1), a
        raise Unsupported("mod inf of negative")
    if not is_sym(a) and not is_sym(b):
        return divmod(a, b)
    za, zb = znum(a), znum(b)
    c = ctx()
    if za.is_int() and zb.is_int():
        sb = z3.simplify(zb)
        if z3.is_int_value(sb) and sb.as_long() > 0:
            return mknum(za / sb), mknum(za % sb)
        key = ("dm", z3.simplify(za).sexpr(), sb.sexpr())
        if key in c.modcache:
            return c.modcache[key][:2]
        if isinstance(b, int) and b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        bp = mkbool(zb > 0)
        if c.must(bp):
            pos = True
        elif bool(mkbool(zb == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        else:
            pos = bool(bp)
        q, r = c.fresh("q").e, c.fresh("r").e
        c.assume(za == q * zb + r)
        if pos:
            c.assume(z3.And(r >= 0, r < zb))
        else:
            c.assume(z3.And(r <= 0, r > zb))
        # lemma instances linking divisions by the same divisor
        for k, val in list(c.modcache.items()):
            if k[0] == "dm" and k[2] == sb.sexpr() and pos:
                q2, r2, za2, zb2 = val
                q2e, r2e = znum(q2), znum(r2)
                d = z3.simplify(za - za2, som=True)
                for m in (-2, -1, 0, 1, 2):
                    if z3.is_true(z3.simplify(d == m * zb)) or z3.simplify(d - m * zb, som=True).eq(z3.IntVal(0)):
                        c.assume(z3.And(q == q2e + m, r == r2e))
                        break
                else:
                    # same quotient <=> difference is difference of remainders (nonlinear uniqueness, stated once)
                    c.assume(z3.Implies(q == q2e, za - za2 == r - r2e))
                    c.assume(z3.Implies(z3.And(za - za2 == r - r2e), q == q2e))
                    c.assume(z3.Implies(z3.And(za >= za2), q >= q2e))
                    c.assume(z3.Implies(z3.And(za <= za2), q <= q2e))
        if pos:
            # small-range facts
            c.assume(z3.Implies(z3.And(za >= 0, za < zb), z3.And(q == 0, r == za)))
            c.assume(z3.Implies(z3.And(za >= zb, za < 2 * zb), z3.And(q == 1, r == za - zb)))
            c.assume(z3.Implies(za >= 0, q >= 0))
            c.assume(z3.Implies(za < 0, q < 0))
        qs, rs = SymNum(q), SymNum(r)
        c.modcache[key] = (qs, rs, za, zb)
        return qs, rs
    za, zb = zreal(a), zreal(b)
    if c.eqs or True:
        ia, ib = _as_int(_rewrite(c, za)), _as_int(_rewrite(c, zb))
        if ia is not None and ib is not None:
            q, r = divmod_(mknum(ia), mknum(ib))
            return mknum(zreal(q)), mknum(zreal(r))
    key = ("dmr", z3.simplify(za).sexpr(), z3.simplify(zb).sexpr())
    if key in c.modcache:
        return c.modcache[key][:2]
    bp = mkbool(zb > 0)
    if not c.must(bp) and not bool(bp):
        raise Unsupported("real mod by non-positive divisor")
    q = c.fresh("qr").e
    r = c.fresh("rr", "real").e
    c.assume(za == z3.ToReal(q) * zb + r)
    c.assume(z3.And(r >= 0, r < zb))
    subs = [(v[1].e, v[2] - v[0].e * v[3]) for k, v in c.modcache.items() if k[0] == "dmr" and k[2] == key[2]] + c.eqs
    for k, val in list(c.modcache.items()):
        if k[0] == "dmr" and k[2] == key[2]:
            q2, r2, za2, zb2 = val
            q2e, r2e = znum(q2[1]) if isinstance(q2, tuple) else z3.ToInt(zreal(q2)), zreal(r2)
            c.assume(z3.Implies(za >= za2, q >= q2e))
            c.assume(z3.Implies(za <= za2, q <= q2e))
            d = z3.simplify(za - za2, som=True)
            for _ in range(4):
                d2 = z3.simplify(z3.substitute(d, *subs), som=True)
                if d2.eq(d):
                    break
                d = d2
            kk = _int_multiple(d, zb)
            if os.environ.get("VERIF_DEBUG") == "3":
                print("DMR", len(c.eqs), za, "||", za2, "||", zb, "->", d, kk)
            if kk is not None:
                c.assume(z3.And(q == q2e + kk, r == r2e))
    c.assume(z3.Implies(z3.And(za >= 0, za < zb), z3.And(q == 0, r == za)))
    c.assume(z3.Implies(z3.And(za >= zb, za < 2 * zb), z3.And(q == 1, r == za - zb)))
    out = (SymNum(z3.ToReal(q)), SymNum(r), za, zb)
    c.modcache[key] = out
    return out[:2]


def _rewrite(c, e):
    for _ in range(4):
        e2 = z3.simplify(z3.substitute(e, *c.eqs), som=True) if c.eqs else z3.simplify(e, som=True)
        if e2.eq(e):
            break
        e = e2
    return e


def _as_int(e):
    """the integer term equal to a real term that is visibly an integer, or None"""
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    if z3.is_to_real(e):
        return e.arg(0)
    k = e.decl().kind() if z3.is_app(e) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = [_as_int(x) for x in e.children()]
        if any(x is None for x in cs):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        if k == z3.Z3_OP_MUL:
            return z3.Product(cs)
        if k == z3.Z3_OP_SUB:
            return cs[0] - z3.Sum(cs[1:])
        return -cs[0]
    if k == z3.Z3_OP_ITE:
        x, y = _as_int(e.arg(1)), _as_int(e.arg(2))
        return None if x is None or y is None else z3.If(e.arg(0), x, y)
    return None


def _int_multiple(d, b):
    """integer expression k with d == k*b syntactically, or None"""
    d = z3.simplify(d, som=True)
    b = z3.simplify(b, som=True)
    if z3.is_rational_value(d) and z3.is_rational_value(b):
        q = d.as_fraction() / b.as_fraction()
        return z3.IntVal(int(q)) if q.denominator == 1 else None
    for m in (0, 1, -1, 2, -2):
        if z3.simplify(d - m * b, som=True).eq(z3.RealVal(0)):
            return z3.IntVal(m)
    # d = sum of monomials each (int term) * b with b a monomial
    cb, fb = _monomial(b)
    if cb == 0:
        return None
    terms = d.children() if z3.is_add(d) else [d]
    acc = []
    for t in terms:
        ct, ft = _monomial(t)
        for f in fb:
            i = next((i for i, x in enumerate(ft) if x.eq(f)), None)
            if i is None:
                return None
            ft.pop(i)
        r = ct / cb
        if r.denominator != 1:
            return None
        k = z3.IntVal(int(r))
        for f in ft:
            if not z3.is_to_real(f):
                return None
            k = k * f.arg(0)
        acc.append(k)
    return z3.simplify(z3.Sum(acc)) if acc else z3.IntVal(0)


def _monomial(t):
    """(coefficient, factors)"""
    c, fs = fractions.Fraction(1), []
    todo = [t]
    while todo:
        f = todo.pop(0)
        if z3.is_rational_value(f):
            c *= f.as_fraction()
        elif z3.is_mul(f):
            todo = f.children() + todo
        elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_rational_value(f.arg(1)) and f.arg(1).as_fraction() in (2, 3, 4):
            todo = [f.arg(0)] * int(f.arg(1).as_fraction()) + todo
        elif z3.is_app_of(f, z3.Z3_OP_UMINUS):
            c = -c
            todo = f.children() + todo
        else:
            fs.append(f)
    return c, fs


def floor_(v):
    if not is_sym(v):
        return math.floor(v)
    if isinstance(v, SymNum) and not v.is_int:
        return mknum(z3.ToInt(v.e))
    return v


def trunc_(v):
    if isinstance(v, SymBool):
        return v._n()
    if not is_sym(v):
        return int(v)
    if v.is_int:
        return v
    return ite(v >= 0, floor_(v), -floor_(-v))


def round_half_even(v):
    f = floor_(v)
    d = v - f
    even = divmod_(f, 2)[1] == 0
    return ite(d < 0.5, f, ite(d > 0.5, f + 1, ite(even, f, f + 1)))


def sqrt_(v):
    if isinstance(v, (Nan, MaybeNan)):
        n, x = split_nan(v)
        return mknan(n, sqrt_(x))
    if not is_sym(v):
        if isinstance(v, float) and math.isinf(v):
            return v
        if v < 0:
            return Nan()
        f = fractions.Fraction(repr(v)) if isinstance(v, float) else fractions.Fraction(v)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            r = n / d
            return r
    c = ctx()
    zv = zreal(v)
    key = ("sqrt", z3.simplify(zv).sexpr())
    if key in c.modcache:
        return c.modcache[key][0]
    s = c.fresh("sqrt", "real").e
    c.assume(z3.Implies(zv >= 0, z3.And(s >= 0, s * s == zv)))
    c.assume(z3.Implies(zv > 0, s > 0))
    # monotonicity with earlier roots
    for k, val in list(c.modcache.items()):
        if k[0] == "sqrt":
            s2, zv2 = val[0].e, val[1]
            c.assume(z3.Implies(z3.And(zv >= 0, zv2 >= zv), s2 >= s))
            c.assume(z3.Implies(z3.And(zv2 >= 0, zv >= zv2), s >= s2))
    out = SymNum(s)
    c.modcache[key] = (out, zv)
    return out


def _uf(name, n, sorts=None):
    return z3.Function(name, *([z3.RealSort()] * n), z3.RealSort())


def unary_uf(name, *args):
    f = _uf("uf_" + name, len(args))
    return SymNum(f(*[zreal(a) for a in args]))


class _Pi:
    pass


def PI():
    c = ctx()
    if "pi" not in c.memo:
        p = z3.Real("pi")
        c.memo["pi"] = SymNum(p)
        c.assume(z3.And(p > z3.RealVal("314159265/100000000"), p < z3.RealVal("314159266/100000000")))
    return c.memo["pi"]


def _trig_norm(v):
    return z3.simplify(zreal(v), som=True)


def cos_(v): return _cs(v)[0]
def sin_(v): return _cs(v)[1]


def _cs(v):
    """(cos, sin) with: cos^2+sin^2=1, periodicity for syntactic multiples of 2pi, parity, values at 0"""
    if isinstance(v, (Nan, MaybeNan)):
        raise Unsupported("trig of nan")
    if not is_sym(v) and v == 0:
        return 1.0, 0.0
    c = ctx()
    pi = PI().e
    e = _trig_norm(v)
    key = ("cs", e.sexpr())
    if key in c.modcache:
        return c.modcache[key][:2]
    fc = z3.Function("uf_cos", z3.RealSort(), z3.RealSort())
    fs = z3.Function("uf_sin", z3.RealSort(), z3.RealSort())
    co, si = fc(e), fs(e)
    c.assume(co * co + si * si == 1)
    c.assume(z3.And(co <= 1, co >= -1, si <= 1, si >= -1))
    c.assume(z3.Implies(e == 0, z3.And(co == 1, si == 0)))
    c.assume(z3.Implies(z3.And(e >= 0, e <= pi), si >= 0))
    c.assume(z3.Implies(z3.And(e >= pi, e <= 2 * pi), si <= 0))
    c.assume(z3.Implies(e == pi, z3.And(co == -1, si == 0)))
    c.assume(z3.Implies(2 * e == pi, z3.And(co == 0, si == 1)))
    # remainders of real mod by 2*pi: replace t by t - 2*pi*q
    for k, val in list(c.modcache.items()):
        if k[0] == "cs":
            e2, co2, si2 = val[2], val[0].e, val[1].e
            c.assume(z3.Implies(e == e2, z3.And(co == co2, si == si2)))
            d = z3.simplify(e - e2, som=True)
            m = _int_multiple(d, z3.simplify(2 * pi)) if False else _mult_2pi(c, d, pi)
            if m is not None:
                c.assume(z3.And(co == co2, si == si2))
    out = (SymNum(co), SymNum(si), e)
    c.modcache[key] = out
    return out[:2]


def _mult_2pi(c, d, pi):
    """does d equal an integer multiple of 2*pi, using the definitions of earlier real mods? (sound, incomplete)"""
    # substitute remainders r := a - q*b for mods by 2*pi
    subs = []
    for k, val in c.modcache.items():
        if k[0] == "dmr":
            q, r, za, zb = val
            if z3.simplify(zb - 2 * pi, som=True).eq(z3.RealVal(0)):
                subs.append((r.e, za - q.e * zb))
    subs += c.eqs
    for _ in range(6):
        d2 = z3.simplify(z3.substitute(d, *subs), som=True) if subs else d
        if d2.eq(d):
            break
        d = d2
    return _int_multiple(d, 2 * pi)


def min_(a, b):
    if isinstance(a, float) and math.isinf(a):
        return b if a > 0 else a
    if isinstance(b, float) and math.isinf(b):
        return a if b > 0 else b
    return ite(a <= b, a, b)


def max_(a, b):
    if isinstance(a, float) and math.isinf(a):
        return a if a > 0 else b
    if isinstance(b, float) and math.isinf(b):
        return b if b > 0 else a
    return ite(a >= b, a, b)


# ---------------------------------------------------------------- strings
class SymStr:
    """symbolic string (z3 String)"""
    def __init__(self, e):
        self.e = e
    @staticmethod
    def lift(s):
        if isinstance(s, SymStr):
            return s.e
        if isinstance(s, str):
            return z3.StringVal(s)
        return None
    def __add__(self, o):
        o = SymStr.lift(o)
        if o is None: return NotImplemented
        return SymStr(z3.Concat(self.e, o))
    def __radd__(self, o):
        o = SymStr.lift(o)
        if o is None: return NotImplemented
        return SymStr(z3.Concat(o, self.e))
    def __eq__(self, o):
        o = SymStr.lift(o)
        if o is None: return False
        return mkbool(self.e == o)
    def __ne__(self, o): return not_(self == o)
    __hash__ = object.__hash__
    def __len__(self):
        raise Unsupported("len of symbolic string")
    def startswith(self, p):
        return mkbool(z3.PrefixOf(SymStr.lift(p), self.e))
    def endswith(self, p):
        return mkbool(z3.SuffixOf(SymStr.lift(p), self.e))
    def __contains__(self, p):
        return bool(mkbool(z3.Contains(self.e, SymStr.lift(p))))
    def __repr__(self): return f"SymStr({self.e})"
    def __str__(self): raise Unsupported("str() of symbolic string")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __format__(self, spec): raise Unsupported("formatting a symbolic string")


def str_of_int(v):
    e = znum(v)
    return SymStr(z3.If(e >= 0, z3.IntToStr(e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-e))))
