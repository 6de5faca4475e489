"""Prove one harness (runs under python3-vt)."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from pyvc import core, engine, tensor, loader, vc as vcmod       # noqa
from pyvc.core import Ctx, Unsupported, SymNum, SymBool, is_sym  # noqa
from pyvc.containers import VList                                # noqa
from pyvc.harness import collect, Discard, Violated              # noqa
import importlib                                                 # noqa


class ProveV:
    prove = True
    real = False

    def __init__(self, vc, eng, h):
        self.vc, self.eng, self.h = vc, eng, h
        self.np = vc.np
        self.covers = {}

    def mod(self, name):
        return self.vc.load(name)

    # inputs
    def _in(self, kind, name, v, meta=None):
        core.ctx().inputs.append((kind, name, v, meta))
        return v

    def int(self, name, lo=None, hi=None, near=None):
        c = core.ctx()
        v = c.fresh(name, "int")
        if lo is not None:
            c.assume(v >= lo)
        if hi is not None:
            c.assume(v <= hi)
        return self._in("int", name, v)

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        c = core.ctx()
        v = c.fresh(name, "real")
        if lo is not None:
            c.assume(v > lo if open_lo else v >= lo)
        if hi is not None:
            c.assume(v < hi if open_hi else v <= hi)
        return self._in("real", name, v)

    def bool(self, name):
        return self._in("bool", name, core.ctx().fresh(name, "bool"))

    def choice(self, name, options):
        options = list(options)
        i = core.ctx().decide(len(options), name) if len(options) > 1 else 0
        self._in("choice", "choice:" + name, i)
        core.ctx().choices.append(i)
        return options[i]

    def tensor(self, name, shape, kind="real", lo=None, hi=None):
        c = core.ctx()
        f = c.fresh_fn(name, len(shape), kind)
        seen = set()

        def el(idx):
            v = wrapz(f(*[core.znum(i) for i in idx]))
            if lo is not None or hi is not None:
                k = str(v)
                if k not in seen:
                    seen.add(k)
                    cc = core.ctx()
                    if lo is not None:
                        cc.assume(v >= lo)
                    if hi is not None:
                        cc.assume(v <= hi)
            return v
        t = tensor.Tensor.new(el, tuple(tensor.normint(d) for d in shape), kind)
        self._in("tensor", name, t, lambda idx: wrapz(f(*[core.znum(i) for i in idx])))
        return t

    def intlist(self, name, n, lo=None, hi=None):
        if isinstance(n, int):
            return VList([self.int(f"{name}[{i}]", lo, hi) for i in range(n)])
        raise Unsupported("symbolic input list")

    def rng(self, name="seed"):
        from pyvc import npshim
        return npshim.Rng(name)

    def str(self, name, options):
        return self.choice(name, options)

    def fn(self, name, nargs, kind="real"):
        f = core.ctx().fresh_fn(name, nargs, kind)
        return lambda *a: wrapz(f(*[core.znum(tensor.normint(x)) for x in a]))

    def fnarray(self, shape, f, kind="real"):
        return tensor.Tensor.new(lambda idx: f(*idx), tuple(shape), kind)

    # logic
    def and_(self, *a): return core.and_(*a)
    def or_(self, *a): return core.or_(*a)
    def not_(self, a): return core.not_(_sb(a))
    def implies(self, a, b): return core.implies(_sb(a), _sb(b))
    def iff(self, a, b):
        a, b = _sb(a), _sb(b)
        return core.and_(core.implies(a, b), core.implies(b, a))

    def ite(self, c, a, b): return core.ite(c, a, b)
    def min(self, a, b): return core.min_(a, b)
    def max(self, a, b): return core.max_(a, b)
    def floor(self, a): return core.floor_(a)
    def abs(self, a): return abs(a)
    def sqrt(self, a): return core.sqrt_(a)
    def cos(self, a): return core.cos_(a)
    def sin(self, a): return core.sin_(a)

    @property
    def pi(self): return core.PI()

    def len(self, l): return vcmod.v_len(l)
    def total(self, l): return l.total() if isinstance(l, VList) else vcmod.v_sum(l)
    def item(self, l, i):
        if isinstance(l, VList):
            return l.get(i)
        return l[i]

    def prefix(self, l, i):
        if isinstance(l, VList):
            return l.prefix(i)
        raise Unsupported("prefix sums")

    def eq(self, a, b, tol=None, scale=None):
        a, b = sc(a), sc(b)
        if isinstance(a, core.Nan) or isinstance(b, core.Nan) or isinstance(a, core.MaybeNan) or isinstance(b, core.MaybeNan):
            na, va = core.split_nan(a)
            nb, vb = core.split_nan(b)
            if va is None or vb is None:
                return core.and_(na, nb)
            return core.or_(core.and_(na, nb), core.and_(core.not_(na), core.not_(nb), va == vb))
        return a == b

    def le(self, a, b, tol=None): return sc(a) <= sc(b)

    def isnan(self, a):
        n, _ = core.split_nan(sc(a))
        return n

    def shape(self, t): return t.shape if hasattr(t, "_tensor_") else tensor.astensor(t).shape
    def at(self, t, *idx):
        t = t if hasattr(t, "_tensor_") else tensor.astensor(t)
        return t.at(tuple(tensor.normint(i) for i in idx))

    # statements
    def assume(self, c): core.ctx().assume(_sb(c))

    def ensure(self, c, label, detail=""):
        ok = self.eng.oblige(_sb(c), label)
        return ok

    def lemma(self, c, label):
        """proof hint: proved, then available"""
        self.eng.oblige(_sb(c), "lemma " + label)

    def forall(self, dims, fn, label):
        dims = dims if isinstance(dims, (tuple, list)) else (dims,)
        c = core.ctx()
        idx = tuple(0 if isinstance(d, int) and d == 1 else c.fresh("fa") for d in dims)
        mark = len(c.pc)
        pre = core.and_(*[core.and_(i >= 0, i < d) for i, d in zip(idx, dims)])
        if core.zbool(pre) is False:
            return
        # in a sub-context: the range assumption must not leak into the path
        if c.check(core.zbool(pre) if not isinstance(core.zbool(pre), bool) else z3.BoolVal(True)) == z3.unsat:
            return
        sub = self._sub(pre, lambda: self.ensure(fn(*idx), label))

    def _sub(self, pre, th):
        """explore th under the extra assumption pre, then drop everything it assumed: run it on one branch"""
        c = core.ctx()
        if c.decide(2, "forall") == 1:
            c.assume(pre)
            th()
            self.eng.sub_done = getattr(self.eng, "sub_done", 0) + 1
            raise core.PathEnd()

    def exists(self, dims, fn):
        dims = dims if isinstance(dims, (tuple, list)) else (dims,)
        import itertools
        if all(isinstance(d, int) for d in dims):
            return core.or_(*[_sb(fn(*i)) for i in itertools.product(*[range(d) for d in dims])])
        raise Unsupported("exists over a symbolic range")

    def inv(self, elem=(), lst=(), num=(), pair=(), tensor_el=(), state=(), elem_list=(), tensor_num=()):
        """candidate loop invariants, phrased over whatever the loop changes (never over names)
        elem: (label, f(i, e, prefix)) for each element of a list    lst: (label, f(list, k))
        num: (label, f(x, entry x, k)) for each number               pair: (label, f(x, y)) for ordered pairs of numbers
        tensor_el: (label, f(idx, value, entry value, k)) per array element   state: (label, f(k)) over the state as it is"""
        eng = self.eng

        def fam(v):
            out = []
            for lab, f in lst:
                for ln, l in v.lists.items():
                    out.append((f"{lab} [{ln}]", lambda f=f, l=l: f(l, v.k)))
            for lab, f in num:
                for n, x in v.nums.items():
                    x0 = (v.entry or v).nums.get(n)
                    if x0 is not None:
                        out.append((f"{lab} [{n}]", lambda f=f, x=x, x0=x0: f(x, x0, v.k)))
            for lab, f in pair:
                for n, x in v.nums.items():
                    for n2, y in v.nums.items():
                        if n != n2:
                            out.append((f"{lab} [{n},{n2}]", lambda f=f, x=x, y=y: f(x, y)))
            for lab, f in state:
                out.append((lab, lambda f=f: f(v.k)))
            return out
        if lst or num or pair or state:
            eng.families.append(fam)
        if elem:
            eng.elem_families.append(lambda v: [(lab, lambda i, e, pre, w, f=f: f(i, e, pre)) for lab, f in elem])
        if elem_list:
            eng.elem_families.append(lambda v: [(lab, lambda i, e, pre, w, f=f: f(i, e, pre, w.l)) for lab, f in elem_list])
        if tensor_num:
            def tnfam(v, t, t0):
                return [(f"{lab} [{n}]", lambda idx, val, w, f=f, n=n: f(idx, val, w.nums[n])) for lab, f in tensor_num for n in v.nums]
            eng.tensor_families.append(tnfam)
        if tensor_el:
            def tfam(v, t, t0):
                out = []
                for lab, f in tensor_el:
                    out.append((lab, lambda idx, val, w, f=f: f(idx, val, t0.at(idx) if t0 is not None else val, w.k)))
                return out
            eng.tensor_families.append(tfam)

    def invx(self, f):
        """candidate invariants f(list, number) for every list and number the loop changes"""
        no = len(self.eng.families)

        def fam(v):
            return [(f"invx{no} [{ln},{n}]", lambda l=l, x=x: f(l, x)) for ln, l in v.lists.items() for n, x in v.nums.items()]
        self.eng.families.append(fam)

    def loop(self, n, body, site="harness loop"):
        """for k in range(n): body(k), for any n (the state the body changes is cut with an inductive invariant)"""
        from pyvc.loops import for_loop
        from pyvc.containers import vrange
        def set_(d):
            pass
        for k in for_loop(vrange(n), site, lambda: {}, set_):
            body(k)

    def require_small(self, *vals):
        """keeps random runs short; no effect on the proof"""

    def ghost(self, **kw):
        """ghost state: attributes are tracked by the loop rule like program state"""
        from pyvc.vc import SymCursor, register
        g = Ghost.__new__(Ghost)
        register(g)
        for k, v in kw.items():
            setattr(g, k, v)
        return g

    def mkdict(self, items):
        from pyvc.containers import VDict
        return VDict(items)

    def mklist(self, items):
        return VList(items)

    def forall_yields(self, gen, fn, count, label):
        """gen: a generator running one loop. fn(k, v) for the k-th value; count values in total"""
        c = core.ctx()
        depth = len(c.loop_stack)
        it = iter(gen)
        k = 0
        while True:
            try:
                v = next(it)
            except StopIteration:
                self.ensure(count == k if not c.last_loop_k else count == c.last_loop_k, label + " [count]")
                return
            if len(c.loop_stack) > depth:
                # an arbitrary iteration of the loop in the generator
                kk = c.loop_stack[-1].k
                del c.loop_stack[depth:]
                self.ensure(core.and_(kk < count, fn(kk, v)), label)
                raise core.PathEnd()
            self.ensure(fn(k, v), label)
            k += 1

    def ensure_eq_t(self, a, b, label, tol=None):
        a = a if hasattr(a, "_tensor_") else tensor.astensor(a)
        b = b if hasattr(b, "_tensor_") else tensor.astensor(b)
        self.ensure(a.ndim == b.ndim, label + " [ndim]")
        for x, y in zip(a.shape, b.shape):
            self.ensure(x == y, label + " [shape]")
        if a.ndim == 0:
            self.ensure(self.eq(a.at(()), b.at(())), label)
        else:
            self.forall(a.shape, lambda *i: self.eq(a.at(i), b.at(i)), label)

    def raises(self, fn, excs=(Exception,)):
        try:
            fn()
        except (Unsupported,):
            raise
        except excs as e:
            if not from_repo(e):
                raise
            return type(e).__name__
        return None

    def patch(self, obj, attr, fn, both=False):
        """replace a callee by its contract (proved elsewhere or assumed)"""
        old = getattr(obj, attr)
        core.ctx().undo.append((obj, attr, old))
        setattr(obj, attr, fn)

    def cover(self, c, label):
        r = core.ctx().check(core.zbool(c)) if not isinstance(core.zbool(c), bool) else None
        self.covers[label] = self.covers.get(label, False) or r == z3.sat or core.zbool(c) is True

    def split(self, c):
        return bool(c)


class Ghost:
    _vc_cls_ = True

    def __setattr__(self, k, v):
        c = core.Ctx.cur
        if c is not None and c.loop_stack:
            for lp in c.loop_stack:
                lp.note_attr(self, k)
        object.__setattr__(self, k, v)


def _sb(c):
    if hasattr(c, "_to_scalar_bool"):
        return c._to_scalar_bool()
    return c


def sc(a):
    if hasattr(a, "_tensor_"):
        return a.item()
    return a


def wrapz(e):
    import z3
    if e.sort() == z3.BoolSort():
        return core.mkbool(e)
    return core.mknum(e)


REPO_MARK = os.path.abspath(loader.REPO_SRC)


def frames(e):
    return [(fr.filename, fr.lineno, fr.name) for fr in traceback.extract_tb(e.__traceback__)]


def from_repo(e):
    """is the exception raised by the verified code (or by numpy's contract on its behalf)?"""
    fr = frames(e)
    if not fr:
        return False
    if fr[-1][0].startswith(REPO_MARK):
        return True
    if isinstance(e, tensor.NpError) and any(f[0].startswith(REPO_MARK) for f in fr):
        return True
    if isinstance(e, (ZeroDivisionError, KeyError, IndexError, StopIteration)) and any(f[0].startswith(REPO_MARK) for f in fr):
        return True
    if getattr(e, "_modelled_", False):
        return True
    return False


import z3  # noqa


def run(cname, hname, opts=None):
    mod = importlib.import_module(f"contracts.{cname}")
    h = [x for x in collect(mod) if x.name == hname][0]
    t0 = time.time()
    vc = vcmod.VC()
    loader.CUR_VC = vc
    eng = engine.Engine(feas_timeout=h.feas_timeout, obl_timeout=h.obl_timeout, max_paths=h.max_paths, budget=h.budget)
    eng.families, eng.elem_families, eng.tensor_families = h.families, h.elem_families, h.tensor_families
    eng.unroll_while = h.unroll_while
    executed = set()
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "pyvc")

    def on_start(code, off):
        if code.co_filename.startswith(REPO_MARK) and not code.co_qualname.startswith("<") and "<lambda>" not in code.co_qualname and "_vcg" not in code.co_qualname and "_vcs" not in code.co_qualname and "<module>" not in code.co_qualname and code.co_flags & 1:
            rel = os.path.relpath(code.co_filename, REPO_MARK)[:-3].replace("/", ".")
            executed.add(f"{rel}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    V = ProveV(vc, eng, h)
    state = {"covered": 0, "coverq": 0, "loaded": False}

    def body():
        c = core.ctx()
        c.undo = []
        eng.families, eng.elem_families, eng.tensor_families = list(h.families), list(h.elem_families), list(h.tensor_families)
        mon.set_events(tool, mon.events.PY_START)
        try:
            h.fn(V)
            state["coverq"] += 1
            if state["covered"] < 3 and c.check() == z3.sat:
                state["covered"] += 1
        except (Unsupported, core.PathEnd, core.PathAbort):
            raise
        except RecursionError:
            raise Unsupported("recursion limit")
        except Exception as e:
            where = [f for f in frames(e) if f[0].startswith(REPO_MARK)]
            txt = f"{type(e).__name__}: {e}"[:300]
            if not where:
                raise Unsupported("harness or engine error: " + txt + " " + str(frames(e)[-2:])) from e
            if from_repo(e) and not any(f[2] == "<module>" for f in where):
                w = where[-1]
                rel = os.path.relpath(w[0], REPO_MARK)
                eng.oblige(False, f"no exception in {rel} {w[2]}: {type(e).__name__}", definite=not isinstance(e, (TypeError, AttributeError)),
                           detail=txt + f" at {rel}:{w[1]} " + (traceback.format_exc()[-1200:] if os.environ.get("VERIF_DEBUG") else ""))
                raise core.PathEnd()
            raise Unsupported("engine: " + txt + " " + str(frames(e)[-2:])) from e
        finally:
            for o, a, v in reversed(c.undo):
                setattr(o, a, v)
            mon.set_events(tool, 0)
    eng.explore(body)
    agg = {}
    fails = []
    for o in eng.obligations:
        a = agg.setdefault(o.name, {"name": o.name, "n": 0, "discharged": 0, "failed": 0, "unknown": 0, "backends": {}, "time": 0.0})
        a["n"] += 1
        a[o.status] += 1
        if o.status == "discharged":
            a["backends"][o.backend] = a["backends"].get(o.backend, 0) + 1
        a["time"] += o.time
        if o.status == "failed" and len(fails) < 6:
            fails.append({"name": o.name, "model": o.model, "definite": o.definite and not (o.abstract and eng.weak), "detail": o.detail, "backend": o.backend, "path": list(o.path)})
    nobl = len(eng.obligations)
    if eng.aborted or eng.unsupported:
        status = "undecided"
    elif nobl == 0 or state["covered"] == 0:
        status = "vacuous"
    else:
        status = "proved"
    if any(a["unknown"] for a in agg.values()):
        status = "undecided"
    if fails:
        status = "refuted"
    return {"harness": hname, "status": status, "paths": eng.paths, "completed": eng.completed, "covered": state["covered"],
            "obligations": list(agg.values()), "n": nobl, "discharged": sum(a["discharged"] for a in agg.values()),
            "fails": fails, "unsupported": eng.unsupported[:6], "aborted": eng.aborted, "rounds": eng.rounds,
            "solver_s": round(eng.solver_time, 2), "queries": eng.queries, "wall_s": round(time.time() - t0, 2),
            "covers": V.covers, "functions": sorted(executed), "loops": {f"{k[0]}@{k[1]}": sorted(v.removed) if os.environ.get("VERIF_DEBUG") else len(v.removed) for k, v in eng.loops.items()}}


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(6000)
    out = sys.argv[3] if len(sys.argv) > 3 else None
    try:
        r = run(sys.argv[1], sys.argv[2])
    except Exception as e:   # noqa
        r = {"harness": sys.argv[2], "status": "error", "error": traceback.format_exc()[-3000:], "obligations": [], "n": 0, "discharged": 0, "fails": [], "functions": [], "solver_s": 0, "queries": 0, "wall_s": 0}
    def default(o):
        return repr(o)
    txt = json.dumps(r, default=default)
    if out:
        open(out, "w").write(txt)
    else:
        print(json.dumps(r, indent=1, default=default))
