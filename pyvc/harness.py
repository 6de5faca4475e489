"""Harnesses: the contracts. One harness calls real functions of /repo on inputs constrained by the precondition
and states postconditions. The same text runs in two modes:
  prove  - inputs are symbolic, the functions are the mechanically transformed source, ensures are obligations
  real   - inputs are concrete (replay of a counter-model, or random for the bounded stand-in), functions are
           imported normally from /repo/src and run by CPython with the installed numpy
No solver import here: this module is also loaded by the interpreter that runs the real code.
"""
import random
import math


class Harness:
    def __init__(self, fn, **kw):
        self.fn = fn
        self.name = kw.pop("name", None) or fn.__name__
        self.functions = kw.pop("functions", [])
        self.families = kw.pop("families", [])
        self.elem_families = kw.pop("elem_families", [])
        self.tensor_families = kw.pop("tensor_families", [])
        self.prove = kw.pop("prove", True)          # False: bounded stand-in only
        self.fuzz = kw.pop("fuzz", 300)             # number of real-code runs (quick tier); 0 = none
        self.assumptions = kw.pop("assumptions", [])
        self.budget = kw.pop("budget", 200)
        self.max_paths = kw.pop("max_paths", 400)
        self.obl_timeout = kw.pop("obl_timeout", 8000)
        self.feas_timeout = kw.pop("feas_timeout", 1500)
        self.unroll_while = kw.pop("unroll_while", 0)
        self.bounded = kw.pop("bounded", "")        # text: bound of the proof (e.g. fixed list lengths)
        self.replay = kw.pop("replay", True)
        self.floats = kw.pop("floats", False)
        self.max_fuzz_s = kw.pop("max_fuzz_s", 20)
        self.deep = kw.pop("deep", 10)              # thorough tier multiplies fuzz by this
        if kw:
            raise TypeError(f"unknown options {list(kw)}")


def harness(**kw):
    def deco(fn):
        return Harness(fn, **kw)
    return deco


def collect(mod):
    hs = []
    for v in vars(mod).values():
        if isinstance(v, Harness):
            hs.append(v)
        elif isinstance(v, (list, tuple)) and v and all(isinstance(x, Harness) for x in v):
            hs.extend(v)
    seen, out = set(), []
    for h in hs:
        if id(h) not in seen:
            seen.add(id(h))
            out.append(h)
    names = [h.name for h in out]
    assert len(names) == len(set(names)), names
    return out


class Discard(Exception):
    """the drawn inputs do not satisfy the precondition"""


class Violated(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


# ------------------------------------------------------------------ real mode
class RealV:
    prove = False
    real = True

    def __init__(self, values=None, rnd=None, sizes=1.0):
        self.values = values          # replay: name -> value
        self.rnd = rnd or random.Random(0)
        self.drawn = {}
        self.sizes = sizes
        self.checks = 0
        self._undo = []

    # modules and numpy
    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    @property
    def np(self):
        import numpy
        return numpy

    # inputs
    def _given(self, name, draw):
        if self.values is not None and name in self.values and self.values[name] is not None:
            v = self.values[name]
        else:
            v = draw()
        self.drawn[name] = v
        return v

    def int(self, name, lo=None, hi=None, near=None):
        def draw():
            r = self.rnd
            a = -12 if lo is None else lo
            b = (a + 25) if hi is None else hi
            if hi is not None and lo is None:
                a = min(a, b - 12)
            if b < a:
                raise Discard(name)
            u = r.random()
            if near is not None and u < 0.4:
                return max(a, min(b, near + r.randint(-2, 2)))
            if u < 0.5:
                return r.randint(a, min(b, a + 4))
            if u < 0.9:
                return r.randint(a, min(b, a + 25))
            return r.randint(a, b if hi is not None else a + 120)
        v = int(self._given(name, draw))
        self._range(v, lo, hi)
        return v

    def _range(self, v, lo, hi, tol=0):
        if lo is not None and v < lo - tol or hi is not None and v > hi + tol:
            raise Discard()

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        def draw():
            r = self.rnd
            a = -8.0 if lo is None else float(lo)
            b = (a + 16.0) if hi is None else float(hi)
            u = r.random()
            if u < 0.25:
                v = float(round(r.uniform(a, b)))
            elif u < 0.35:
                v = a
            elif u < 0.42:
                v = b
            elif u < 0.6:
                v = round(r.uniform(a, b), 1)
            else:
                v = r.uniform(a, b)
            v = min(max(v, a), b)
            return v
        v = float(self._given(name, draw))
        self._range(v, lo, hi)
        if open_lo and v <= lo or open_hi and v >= hi:
            raise Discard()
        return v

    def bool(self, name):
        return bool(self._given(name, lambda: self.rnd.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        i = self._given("choice:" + name, lambda: self.rnd.randrange(len(options)))
        return options[int(i)]

    def tensor(self, name, shape, kind="real", lo=None, hi=None):
        np = self.np
        shape = tuple(int(s) for s in shape)

        def draw():
            r = self.rnd
            g = np.random.default_rng(r.randrange(1 << 30))
            if kind == "bool":
                return g.integers(0, 2, shape).astype(bool)
            if kind == "int":
                return g.integers(-5 if lo is None else lo, (6 if hi is None else hi + 1), shape)
            if lo is not None or hi is not None:
                return g.uniform(-3 if lo is None else lo, 3 if hi is None else hi, shape)
            m = r.random()
            a = g.normal(size=shape)
            if m < 0.3:
                a = np.round(a * 2)
            return a * r.choice([1, 1, 1, 100, 0.01])
        v = self._given(name, draw)
        if isinstance(v, dict):
            if v.get("values") is None:
                raise Discard()
            vals = [0 if x is None else x for x in v["values"]]
            v = np.array(vals, dtype={"int": int, "bool": bool}.get(kind, float)).reshape(v["shape"])
        v = np.asarray(v)
        if v.shape != shape:
            raise Discard()
        if v.size and (lo is not None and v.min() < lo or hi is not None and v.max() > hi):
            raise Discard()
        self.drawn[name] = v.copy()
        return v.copy()

    def intlist(self, name, n, lo=None, hi=None):
        vals = [self.int(f"{name}[{i}]", lo, hi) for i in range(int(n))]
        return vals

    def rng(self, name="seed"):
        s = self.drawn[name] if name in self.drawn else self._given(name, lambda: self.rnd.randrange(1 << 30))
        return self.np.random.default_rng(int(s))

    def str(self, name, options):
        return self._given(name, lambda: self.rnd.choice(list(options)))

    # logic
    def and_(self, *a): return all(bool(x) for x in a)
    def or_(self, *a): return any(bool(x) for x in a)
    def not_(self, a): return not bool(a)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def min(self, a, b): return min(a, b)
    def max(self, a, b): return max(a, b)
    def floor(self, a): return math.floor(a + 1e-12 * max(1, abs(a))) if isinstance(a, float) else math.floor(a)
    def abs(self, a): return abs(a)
    def sqrt(self, a): return self.np.sqrt(a)
    def cos(self, a): return self.np.cos(a)
    def sin(self, a): return self.np.sin(a)
    pi = math.pi

    def len(self, l): return len(l)
    def total(self, l): return sum(l)
    def item(self, l, i): return l[int(i)]
    def prefix(self, l, i): return sum(l[:int(i)])

    def eq(self, a, b, tol=1e-7, scale=None):
        np = self.np
        a, b = complex(a), complex(b)
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        s = max(abs(a), abs(b), 1.0 if scale is None else float(scale))
        return abs(a - b) <= tol * s

    def le(self, a, b, tol=1e-7):
        return bool(a <= b) or float(a) - float(b) <= tol * max(1.0, abs(float(a)), abs(float(b)))

    def isnan(self, a): return bool(self.np.isnan(a))

    def shape(self, t):
        return tuple(self.np.shape(t))

    def at(self, t, *idx):
        return self.np.asarray(t)[tuple(int(i) for i in idx)]

    # contract statements
    def assume(self, c):
        if not bool(c):
            raise Discard()

    def ensure(self, c, label, detail=""):
        self.checks += 1
        if not bool(c):
            raise Violated(label, str(detail))

    def lemma(self, c, label):
        pass

    def forall(self, dims, fn, label):
        import itertools
        dims = tuple(int(d) for d in (dims if isinstance(dims, (tuple, list)) else (dims,)))
        for idx in itertools.product(*[range(d) for d in dims]):
            self.ensure(fn(*idx), label, f"at {idx}")

    def loop(self, n, body, site=""):
        for k in range(int(n)):
            body(k)

    def require_small(self, *vals):
        if any(v > 60 for v in vals):
            raise Discard()

    def ghost(self, **kw):
        import types
        return types.SimpleNamespace(**kw)

    def mkdict(self, items):
        return dict(items)

    def mklist(self, items):
        return list(items)

    def inv(self, **kw):
        pass

    def invx(self, f):
        pass

    def forall_yields(self, gen, fn, count, label):
        k = 0
        for v in gen:
            self.ensure(fn(k, v), label, f"value {k}: {v}")
            k += 1
        self.ensure(k == count, label + " [count]", f"{k} values instead of {count}")

    def exists(self, dims, fn):
        import itertools
        dims = tuple(int(d) for d in (dims if isinstance(dims, (tuple, list)) else (dims,)))
        return any(bool(fn(*idx)) for idx in itertools.product(*[range(d) for d in dims]))

    def ensure_eq_t(self, a, b, label, tol=1e-7):
        np = self.np
        a, b = np.asarray(a), np.asarray(b)
        self.ensure(a.shape == b.shape, label + " [shape]", f"{a.shape} vs {b.shape}")
        if a.size:
            af, bf = a.astype(complex), b.astype(complex)
            s = max(1.0, float(np.nanmax(np.abs(bf))) if not np.all(np.isnan(bf)) else 1.0)
            ok = (np.abs(af - bf) <= tol * s) | (np.isnan(af) & np.isnan(bf)) | (af == bf)
            if not np.all(ok):
                i = tuple(int(x) for x in np.argwhere(~ok)[0])
                self.ensure(False, label, f"at {i}: {a[i]!r} vs {b[i]!r}")
        self.checks += 1

    def raises(self, fn, excs=(Exception,)):
        try:
            fn()
        except (Discard, Violated):
            raise
        except excs as e:
            return type(e).__name__
        return None

    def patch(self, obj, attr, fn, both=False):
        if not both:
            return
        old = getattr(obj, attr)
        self._undo.append((obj, attr, old))
        setattr(obj, attr, fn)

    def undo(self):
        for o, a, v in reversed(self._undo):
            setattr(o, a, v)
        self._undo = []

    def cover(self, c, label):
        pass

    def split(self, c):
        """case split (proof only)"""
        return bool(c)

    def fn(self, name, nargs, kind="real"):
        """an arbitrary function of integers (uninterpreted in proofs, a fixed table here)"""
        import zlib
        cache = {}

        def f(*a):
            a = tuple(int(x) for x in a)
            if a not in cache:
                z = zlib.crc32(repr((name, a)).encode())
                cache[a] = (z % 2001 - 1000) / 8.0 if kind == "real" else (z % 7) if kind == "int" else bool(z & 1)
            return cache[a]
        return f

    def fnarray(self, shape, f, kind="real"):
        np = self.np
        import itertools
        shape = tuple(int(s) for s in shape)
        out = np.zeros(shape, dtype={"int": int, "bool": bool}.get(kind, float))
        for idx in itertools.product(*[range(d) for d in shape]):
            out[idx] = f(*idx)
        return out
