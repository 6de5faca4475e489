"""Loops: concrete trip counts run natively; symbolic ones are cut with an inductive invariant.

The invariant is the strongest conjunction of candidate formulas that survives (Houdini): candidates come from
generic families over the loop's own state (whatever the variables are called) and from families a contract adds.
Every candidate that is finally assumed has been proved on entry and proved preserved by the body.
"""
import itertools
import os
import sys
import types
import z3
from . import core
from .core import SymNum, SymBool, Unsupported, PathEnd, ctx, and_, or_, not_, implies, is_sym, znum, zbool, mkbool
from .tensor import Tensor, Storage, normint, conc_dim
from .containers import VList, SymIter, symiter_of

UNROLL = 40
DBG = os.environ.get("VERIF_DEBUG") == "2"
CAND_ERR = (Unsupported, TypeError, AttributeError, ZeroDivisionError, KeyError, IndexError, ValueError)


_NONE = object()


class Poison:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"variable {self.__dict__['_n']} assigned only inside a cut loop")
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __index__ = __truediv__ = __rtruediv__ = _bad
    __hash__ = object.__hash__


class LoopInfo:
    def __init__(self):
        self.removed = set()
        self.heap = set()        # (serial, attr)
        self.items = set()       # (dict serial, key)
        self.storages = set()
        self.lists = set()
        self.kinds = {}          # location -> kind override
        self.final = set()


def for_loop(it, site, get, set_):
    s = symiter_of(it)
    if s is None:
        return it
    if get is None:
        raise Unsupported(f"symbolic loop outside a function: {site}")
    return CutLoop(site, get, set_, s, None)


def while_loop(cond, site, get, set_):
    return WhileLoop(cond, site, get, set_)


class WhileLoop:
    def __init__(self, cond, site, get, set_):
        self.cond, self.site, self.get, self.set_ = cond, site, get, set_
        self.n = 0
        self.cut = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.cut is not None:
            return self.cut.__next__()
        c = self.cond()
        if hasattr(c, "_tensor_"):
            c = c._to_scalar_bool()
        if isinstance(c, SymNum):
            c = c != 0
        if isinstance(c, SymBool):
            if core.Ctx.cur.engine.unroll_while and self.n < core.Ctx.cur.engine.unroll_while:
                pass
            if self.get is None:
                raise Unsupported(f"symbolic loop outside a function: {self.site}")
            self.cut = CutLoop(self.site, self.get, self.set_, None, self.cond)
            return self.cut.__next__()
        self.n += 1
        if self.n > 5000:
            raise Unsupported(f"long concrete loop {self.site}")
        if not c:
            raise StopIteration
        return None


def _with_list(P, l):
    """the list (length, sum) as it is now, offered to candidates about its elements"""
    try:
        tot = l.total()
    except CAND_ERR:
        tot = None
    snap = types.SimpleNamespace(n=l.n, total=lambda: tot)

    def f(i, e, pre, w):
        w.l = snap
        return P(i, e, pre, w)
    return f


def fresh_kind(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "real" if v == v and abs(v) != float("inf") else "inf"
    if isinstance(v, SymNum):
        return "int" if v.is_int else "real"
    if isinstance(v, VList):
        return "list"
    if isinstance(v, Tensor):
        return "tensor"
    if isinstance(v, tuple):
        return "tuple"
    return "obj"


class View:
    """loop state offered to candidate families"""

    def __init__(self):
        self.nums = {}      # label -> current value (ints / reals)
        self.lists = {}
        self.tensors = {}
        self.k = None
        self.entry = None
        self.const = {}     # unmodified scalars in scope

    def ints(self):
        return {a: v for a, v in self.nums.items() if isinstance(v, int) or (isinstance(v, SymNum) and v.is_int)}


class CutLoop:
    def __init__(self, site, get, set_, it, cond):
        self.site, self.get, self.set_, self.it, self.cond = site, get, set_, it, cond
        self.started = False

    def __iter__(self):
        return self

    # ---- write barrier
    def note_attr(self, o, k):
        s = o.__dict__.get("_vc_serial") if hasattr(o, "__dict__") else None
        if s is None:
            self.bad = f"write to attribute {k} of an untracked object"
            return
        if s < self.serial0 and k != "_vc_serial":
            self.w_heap.add((s, k))

    def note_storage(self, st):
        if 0 <= st.serial < self.serial0:
            self.w_st.add(st.serial)

    def note_list(self, l):
        if 0 <= l.serial < self.serial0:
            self.w_lists.add(l.serial)

    def note_item(self, d, k):
        if 0 <= d.serial < self.serial0:
            self.w_items.add((d.serial, k))

    # ---- frame
    def _locs(self, frame):
        """current values of all havocked locations"""
        c = ctx()
        out = {}
        for n in self.localnames:
            if n in frame:
                out[("l", n)] = frame[n]
        for s, a in self.info.heap:
            o = c.objs.get(s)
            if o is not None and a in getattr(o, "__dict__", {}):
                out[("h", s, a)] = o.__dict__[a]
        for s, k in self.info.items:
            d = c.objs.get(s)
            if d is not None and dict.__contains__(d, k):
                out[("d", s, k)] = dict.__getitem__(d, k)
        return out

    def _reach(self, frame):
        """storages and lists reachable from the frame by short paths: labelled objects"""
        c = ctx()
        st, li = {}, {}

        def walk(label, v, depth):
            if isinstance(v, Tensor):
                st.setdefault(v.st.serial, (label, v))
            elif isinstance(v, VList):
                li.setdefault(v.serial, (label, v))
                if v.concrete and depth < 4:
                    for i, x in enumerate(list.__iter__(v)):
                        walk(f"{label}[{i}]", x, depth + 1)
            elif isinstance(v, dict) and depth < 4:
                for k, x in dict.items(v):
                    walk(f"{label}[{k!r}]", x, depth + 1)
            elif isinstance(v, (tuple,)) and depth < 4:
                for i, x in enumerate(v):
                    walk(f"{label}[{i}]", x, depth + 1)
            elif hasattr(v, "_vc_cls_") and not isinstance(v, type) and depth < 4:
                for k, x in v.__dict__.items():
                    walk(f"{label}.{k}", x, depth + 1)
        for n, v in frame.items():
            walk(n, v, 0)
        for s, o in c.objs.items():
            if s < self.serial0 and hasattr(o, "__dict__"):
                for k, x in o.__dict__.items():
                    if isinstance(x, (Tensor, VList)):
                        walk(f"o{s}.{k}", x, 3)
        return st, li

    def _outer(self):
        """unmodified integer/real scalars visible in the enclosing frames"""
        import sys
        out = {}
        f = sys._getframe(1)
        while f is not None:
            if "/pyvc/" not in f.f_code.co_filename and "<frozen" not in f.f_code.co_filename:
                for n, v in f.f_locals.items():
                    if n.startswith("_vc"):
                        continue
                    if isinstance(v, (int, float, SymNum)) and not isinstance(v, bool):
                        out.setdefault(n, v)
                    elif hasattr(v, "_vc_cls_") and not isinstance(v, type):
                        for k, x in v.__dict__.items():
                            if isinstance(x, (int, SymNum)) and not isinstance(x, bool) and k != "_vc_serial":
                                out.setdefault(f"{n}.{k}", x)
                break
            f = f.f_back
        return out

    # ---- candidates
    def view(self, frame, k):
        v = View()
        v.k = k
        for loc, val in self._locs(frame).items():
            lab = ".".join(str(x) for x in loc)
            if isinstance(val, bool) or isinstance(val, SymBool):
                continue
            if isinstance(val, (int, SymNum)) or (isinstance(val, float) and abs(val) != float("inf") and val == val):
                v.nums[lab] = val
            elif isinstance(val, VList):
                v.lists[lab] = val
            elif isinstance(val, Tensor) and loc[0] != "x":
                v.tensors[lab] = val
        for s in self.info.lists:
            if s in self.lists0:
                v.lists[f"L{s}"] = self.lists0[s]
        for s in self.info.storages:
            if s in self.st0:
                v.tensors[f"S{s}"] = self.st0[s]
        v.entry = self.entry_view
        v.const = self.const
        v.const_exprs = {n: x for n, x in (v.entry.nums if v.entry else v.nums).items()}
        v.const_exprs = {"entry " + n: x for n, x in v.const_exprs.items()}
        v.site = self.site
        v.it_n = self.it.n if self.it is not None else None
        return v

    def candidates(self, v, stage):
        """list of (label, condition thunk)"""
        out = []
        e = v.entry or v
        nums, k = v.nums, v.k

        def add(lab, th):
            if lab not in self.info.removed:
                out.append((lab, th))
        add("k>=0", lambda: k >= 0)
        for n, x in nums.items():
            x0 = e.nums.get(n)
            if x0 is None:
                continue
            add(f"{n}==entry", lambda x=x, x0=x0: x == x0)
            add(f"{n}>=entry", lambda x=x, x0=x0: x >= x0)
            add(f"{n}<=entry", lambda x=x, x0=x0: x <= x0)
            add(f"{n}>=0", lambda x=x: x >= 0)
            add(f"{n}>0", lambda x=x: x > 0)
            add(f"{n}==entry+k", lambda x=x, x0=x0: x == x0 + k)
            add(f"{n}==entry-k", lambda x=x, x0=x0: x == x0 - k)
            for cn, c in v.const.items():
                if isinstance(c, float):
                    continue
                add(f"{n}<={cn}", lambda x=x, c=c: x <= c)
                add(f"{n}<{cn}", lambda x=x, c=c: x < c)
                add(f"{n}>={cn}", lambda x=x, c=c: x >= c)
        vl = getattr(self.it, "vlist", None)
        if vl is not None and vl.spre is not None:
            for n, x in nums.items():
                if n in e.nums:
                    add(f"{n}==entry+sum of items", lambda x=x, n=n: x == e.nums[n] + vl.spre(k))
        names = list(nums)
        for a, b in itertools.combinations(names, 2):
            if a in e.nums and b in e.nums:
                add(f"{a}+{b}", lambda a=a, b=b: nums[a] + nums[b] == e.nums[a] + e.nums[b])
                add(f"{a}-{b}", lambda a=a, b=b: nums[a] - nums[b] == e.nums[a] - e.nums[b])
                add(f"{a}<={b}", lambda a=a, b=b: nums[a] <= nums[b])
                add(f"{b}<={a}", lambda a=a, b=b: nums[b] <= nums[a])
        for ln, l in v.lists.items():
            l0 = e.lists.get(ln)
            if l0 is None:
                continue
            add(f"len {ln}>=entry", lambda l=l, l0=l0: l.n >= l0[0])
            add(f"len {ln}=entry+k", lambda l=l, l0=l0: l.n == l0[0] + k)
            add(f"len {ln}==entry", lambda l=l, l0=l0: l.n == l0[0])
            if l.concrete or l.ssum is not None:
                add(f"sum {ln}==entry", lambda l=l, l0=l0: l.total() == l0[1])
                for n in names:
                    if n in e.nums:
                        add(f"sum {ln}-{n}", lambda l=l, l0=l0, n=n: l.total() - nums[n] == l0[1] - e.nums[n])
                        add(f"sum {ln}+{n}", lambda l=l, l0=l0, n=n: l.total() + nums[n] == l0[1] + e.nums[n])
                        add(f"sum {ln}*{n}", lambda l=l, l0=l0, n=n: l.total() * nums[n] == l0[1] * e.nums[n])
        eng = ctx().engine
        for fam in eng.families:
            try:
                for lab, th in fam(v):
                    add("c:" + lab, th)
            except CAND_ERR:
                pass
        return out

    def elem_families(self, v):
        eng = ctx().engine
        for ln, l in v.lists.items():
            for lab, P in (f for fam in eng.elem_families for f in fam(v)):
                key = f"e:{ln}:{lab}"
                if key not in self.info.removed:
                    yield key, l, P

    def tensor_families(self, v):
        eng = ctx().engine
        for tn, t in v.tensors.items():
            for lab, P in (f for fam in eng.tensor_families for f in fam(v, t, v.entry_t.get(tn) if v.entry_t else None)):
                key = f"t:{tn}:{lab}"
                if key not in self.info.removed:
                    yield key, t, P

    def check_candidates(self, v, stage):
        c = ctx()
        self._stage = stage
        c.in_invariant += 1
        try:
            self._check_candidates(v, stage)
        finally:
            c.in_invariant -= 1

    def _check_candidates(self, v, stage):
        c = ctx()
        cands = []
        for lab, th in self.candidates(v, stage):
            try:
                cands.append((lab, zbool(th())))
            except CAND_ERR:
                self._remove(lab)
        todo = [(l, z) for l, z in cands if z is not True]
        for l, z in [x for x in todo if x[1] is False]:
            self._remove(l)
        todo = [(l, z) for l, z in todo if z is not False]
        self._prune(c, todo)
        # elements of lists
        for key, l, P in list(self.elem_families(v)):
            self._check_elems(key, l, P, v)
        for key, t, P in list(self.tensor_families(v)):
            self._check_tensor(key, t, P, v)

    def _prune(self, c, todo):
        """remove the candidates that are not valid here"""
        c.engine.check_time()
        while todo:
            neg = z3.Or([z3.Not(z) for _, z in todo])
            s = c.solver
            s.push()
            s.add(neg)
            r = c.check()
            if r == z3.unsat:
                s.pop()
                return
            if r == z3.sat:
                m = s.model()
                s.pop()
                bad = [l for l, z in todo if z3.is_false(m.eval(z, model_completion=True))]
                if bad:
                    for l in bad:
                        self._remove(l)
                    todo = [(l, z) for l, z in todo if l not in set(bad)]
                    continue
            else:
                s.pop()
            # undecided as a group: one at a time, the stronger solver chain
            rest = []
            for l, z in todo:
                c.engine.check_time()
                r2 = c.check(z3.Not(z))
                if r2 != z3.unsat:
                    if r2 != z3.sat:
                        if l.startswith("c:"):
                            r3, _, _ = c.engine.solve(c.pc, z3.Not(z), quick=True)
                            if r3 == z3.unsat:
                                continue
                        c.engine.weak = True
                    self._remove(l)
            return

    def _remove(self, lab):
        if lab not in self.info.removed:
            self.info.removed.add(lab)
            if DBG:
                import traceback
                print("removed", self.key, lab, self._stage, repr(sys.exc_info()[1]))
            ctx().engine.dirty = ctx().engine.dirty or True

    def _check_elems(self, key, l, P, v):
        c = ctx()
        c.engine.check_time()
        P = _with_list(P, l)
        j = c.fresh("ej")
        pre = getattr(l, "spre", None)
        try:
            if l.concrete:
                conds = []
                for i in range(list.__len__(l)):
                    conds.append(P(i, l.get(i), l.prefix(i), v))
                cond = and_(*conds)
            else:
                cond = implies(and_(j >= 0, j < l.n), P(j, l.get(j), l.prefix(j) if l.spre is not None else None, v))
            z = zbool(cond)
            if z is True:
                return
            r = z3.sat if z is False else c.check(z3.Not(z))
            if r == z3.unknown:
                r, _, _ = c.engine.solve(c.pc, z3.Not(z), quick=True)
            if r != z3.unsat:
                c.engine.weak = c.engine.weak or r == z3.unknown
                self._remove(key)
        except CAND_ERR:
            self._remove(key)

    def _check_tensor(self, key, t, P, v):
        c = ctx()
        c.engine.check_time()
        if all(isinstance(d, int) for d in t.shape):
            n = 1
            for d in t.shape:
                n *= d
            if n <= 8:
                try:
                    for idx in itertools.product(*[range(d) for d in t.shape]):
                        z = zbool(P(idx, t.at(idx), v))
                        if z is True:
                            continue
                        r = z3.sat if z is False else c.check(z3.Not(z))
                        if r == z3.unknown:
                            r, _, _ = c.engine.solve(c.pc, z3.Not(z), quick=True)
                        if r != z3.unsat:
                            c.engine.weak = c.engine.weak or r == z3.unknown
                            self._remove(key)
                            return
                except CAND_ERR:
                    self._remove(key)
                return
        idx = tuple(0 if isinstance(d, int) and d == 1 else c.fresh("ti") for d in t.shape)
        inr = and_(*[and_(i >= 0, i < d) for i, d in zip(idx, t.shape)])
        # the index is fresh: if the array is not empty it may be taken in range (no vacuity)
        c.assume(implies(and_(*[d > 0 for d in t.shape]), inr))
        try:
            z = zbool(implies(inr, P(idx, t.at(idx), v)))
            if z is True:
                return
            r = z3.sat if z is False else c.check(z3.Not(z))
            if r == z3.unknown:
                r, _, _ = c.engine.solve(c.pc, z3.Not(z), quick=True)
            if r != z3.unsat:
                c.engine.weak = c.engine.weak or r == z3.unknown
                self._remove(key)
        except CAND_ERR:
            self._remove(key)

    # ---- havoc
    def _fresh(self, loc, val):
        c = ctx()
        kind = self.info.kinds.get(loc) or fresh_kind(val)
        lab = "h_" + ".".join(str(x) for x in loc)
        if kind in ("int", "real", "bool"):
            return c.fresh(lab, kind)
        if kind == "list":
            return self._fresh_list(loc, val)
        if kind == "tensor":
            f = c.fresh_fn(lab, val.ndim, {"obj": "real", "complex": "real"}.get(val.kind, val.kind))
            shape = tuple(self._fresh_dim(loc, a, d) for a, d in enumerate(val.shape))
            kk = val.kind
            return Tensor.new(lambda idx: wrap(f(*[znum(i) for i in idx])), shape, kk)
        if kind == "inf":
            raise Unsupported("infinite value changes in a cut loop")
        return val

    def _fresh_dim(self, loc, a, d):
        if self.info.kinds.get((loc, "dim", a)):
            x = ctx().fresh("hdim")
            ctx().assume(x >= 0)
            return x
        return d

    def _fresh_list(self, loc, val):
        c = ctx()
        kind = self.info.kinds.get((loc, "elem"))
        if kind is None:
            if val.concrete and list.__len__(val):
                ks = {fresh_kind(x) for x in list.__iter__(val)}
                kind = ks.pop() if len(ks) == 1 else "obj"
            elif not val.concrete:
                kind = val.kind or "int"
            else:
                kind = "int"
        if kind not in ("int", "real"):
            raise Unsupported("list of objects grows in a cut loop")
        n = c.fresh("h_len")
        pre = c.fresh_fn("h_pre", 1, kind)
        c.assume(n >= 0)
        c.assume(mkbool(pre(z3.IntVal(0)) == 0))
        c.assume(mkbool(z3.Implies(n.e == 0, pre(n.e) == 0)))
        l = VList.sym(n, lambda i: wrap(pre(znum(i) + 1) - pre(znum(i))), kind, lambda i: wrap(pre(znum(i))), wrap(pre(n.e)))
        return l

    def _havoc(self, frame):
        c = ctx()
        new = {}
        self.hlists, self.htens = {}, {}
        entry = self._locs(frame)
        for loc, val in entry.items():
            nv = self._fresh(loc, val)
            if loc[0] == "l":
                new[loc[1]] = nv
            elif loc[0] == "h":
                c.objs[loc[1]].__dict__[loc[2]] = nv
            else:
                dict.__setitem__(c.objs[loc[1]], loc[2], nv)
        for n in self.localnames:
            if n not in frame:
                new[n] = Poison(n)
        # mutated lists and storages (in place, identity kept)
        for s in self.info.lists:
            l = self.lists0.get(s)
            if l is None:
                continue
            h = self._fresh_list(("L", s), l)
            list.clear(l) if False else None
            l.concrete = False
            l.sn, l.sget, l.kind, l.spre, l.ssum = h.sn, h.sget, h.kind, h.spre, h.ssum
            list.__init__(l)
        for s in self.info.storages:
            t = self.st0.get(s)
            if t is None:
                continue        # an array of another path; if the body writes it here, _finish rejects the loop
            st = t.st
            kd = {"obj": "real", "complex": "real"}.get(st.kind, st.kind)
            f = c.fresh_fn(f"h_st{s}", len(st.shape), kd)
            st.fn = lambda idx, f=f: wrap(f(*[znum(i) for i in idx]))
        self.set_(new)

    def __next__(self):
        if not self.started:
            self.started = True
            return self._start()
        return self._finish()

    def _start(self):
        c = ctx()
        if any([lp.discover() for lp in c.loop_stack]):
            c.engine.reconsider(c)
            c.engine.dirty = "now"
            raise PathEnd()
        occ = c.loop_count.get(self.site, 0)
        c.loop_count[self.site] = occ + 1
        self.key = (self.site, occ) + tuple(c.choices)
        self.info = c.engine.loops.setdefault(self.key, LoopInfo())
        frame = self.get()
        self.localnames = self.set_.__code__.co_freevars
        self.serial0 = c.serial
        self.w_heap, self.w_items, self.w_st, self.w_lists = set(), set(), set(), set()
        self.bad = None
        self.st0, self.lists0 = {}, {}
        allframe = dict(frame)
        allframe.update(self._callers())
        st, li = self._reach(allframe)
        for s, (lab, t) in st.items():
            # whole-storage tensor
            self.st0[s] = Tensor(t.st, t.st.shape)
        for s, (lab, l) in li.items():
            self.lists0[s] = l
        self.const = {n: x for n, x in self._outer().items() if n not in self.localnames}
        self.entry_view = None
        v0 = self.view(frame, 0)
        ev = View()
        ev.nums = dict(v0.nums)
        ev.lists = {}
        for n, l in v0.lists.items():
            try:
                ev.lists[n] = (l.n, l.total() if (l.concrete and all(isinstance(x, (int, float, SymNum)) for x in list.__iter__(l))) or (not l.concrete and l.ssum is not None) else None)
            except TypeError:
                ev.lists[n] = (l.n, None)
        ev.lists = {n: (a, b if b is not None else 0) for n, (a, b) in ev.lists.items()}
        ev.tensors = {n: t.copy() for n, t in v0.tensors.items()}
        ev.const = self.const
        self.entry_view = ev
        v0.entry = ev
        v0.entry_t = ev.tensors
        self.check_candidates(v0, "entry")
        # --- arbitrary iteration
        self._havoc(frame)
        c.abstract = True
        self.k = c.fresh("k")
        c.assume(self.k >= 0)
        frame = self.get()
        v = self.view(frame, self.k)
        v.entry_t = ev.tensors
        self.assume_candidates(v)
        c.loop_stack.append(self)
        if self.it is not None:
            d = c.decide(2, self.site)
            if d == 0:
                c.assume(self.k < self.it.n)
                return self.it.get(self.k)
            c.assume(self.k == core.max_(self.it.n, 0) if not c.must(self.it.n >= 0) else self.k == self.it.n)
        else:
            if bool(self.cond()):
                return None
        c.loop_stack.remove(self)
        c.last_loop_k = self.k
        raise StopIteration

    def _callers(self):
        import sys
        out = {}
        f = sys._getframe(1)
        d = 0
        while f is not None:
            fn = f.f_code.co_filename
            if "/pyvc/" not in fn:
                for n, v in f.f_locals.items():
                    if not n.startswith("_vc"):
                        out.setdefault(f"^{d}.{n}", v)
                d += 1
                if d > 12:
                    break
            f = f.f_back
        return out

    def assume_candidates(self, v):
        c = ctx()
        c.in_invariant += 1
        try:
            self._assume_candidates(v)
        finally:
            c.in_invariant -= 1

    def _snap(self):
        """heap values at the loop head: lazily assumed facts talk about that state"""
        c = ctx()
        out = []
        for s, a in self.info.heap:
            o = c.objs.get(s)
            if o is not None and a in getattr(o, "__dict__", {}):
                out.append((o.__dict__, a, o.__dict__[a]))
        for s, k in self.info.items:
            d = c.objs.get(s)
            if d is not None and dict.__contains__(d, k):
                out.append((d, k, dict.__getitem__(d, k)))
        return out

    def _at_head(self, P):
        snap = self._snap()

        def f(*a):
            now = []
            for d, k, v in snap:
                now.append((d, k, dict.get(d, k, _NONE)))
                dict.__setitem__(d, k, v)
            try:
                return P(*a)
            finally:
                for d, k, v in now:
                    if v is _NONE:
                        dict.pop(d, k, None)
                    else:
                        dict.__setitem__(d, k, v)
        return f

    def _assume_candidates(self, v):
        c = ctx()
        for lab, th in self.candidates(v, "assume"):
            try:
                c.assume(th())
            except CAND_ERR:
                self._remove(lab)
        for key, l, P in list(self.elem_families(v)):
            self._assume_elems(l, self._at_head(P), v)
        for key, t, P in list(self.tensor_families(v)):
            self._assume_tensor(t, self._at_head(P), v)

    def _assume_elems(self, l, P, v):
        if l.concrete:
            return
        P = _with_list(P, l)
        g0, n0, pre = l.sget, l.sn, l.spre
        seen = set()

        def get(i, g0=g0):
            val = g0(i)
            key = str(z3.simplify(znum(i)))
            if key not in seen:
                seen.add(key)
                c = ctx()
                c.in_invariant += 1
                try:
                    c.assume(implies(and_(i >= 0, i < n0), P(i, val, pre(i) if pre else None, v)))
                finally:
                    c.in_invariant -= 1
            return val
        l.sget = get
        if pre is not None:
            def spre(i):
                if isinstance(i, (int, SymNum)):
                    get(i)
                return pre(i)
            l.spre = spre

    def _assume_tensor(self, t, P, v):
        st = t.st
        f0 = st.fn
        shape = st.shape
        seen = set()

        def fn(idx, f0=f0):
            val = f0(idx)
            key = tuple(str(z3.simplify(znum(i))) for i in idx)
            if key not in seen:
                seen.add(key)
                inr = and_(*[and_(i >= 0, i < d) for i, d in zip(idx, shape)])
                c = ctx()
                c.in_invariant += 1
                try:
                    p = P(idx, val, v)
                    z = zbool(p)
                    if not isinstance(z, bool) and z3.is_eq(z) and c.must(inr):
                        c.note_eq(z)
                        c.assume(p)
                    else:
                        c.assume(implies(inr, p))
                finally:
                    c.in_invariant -= 1
            return val
        st.fn = fn

    def discover(self):
        grew = False
        for s, a in self.w_heap:
            if (s, a) not in self.info.heap:
                self.info.heap.add((s, a))
                grew = True
        for s, k in self.w_items:
            if (s, k) not in self.info.items:
                self.info.items.add((s, k))
                grew = True
        for s in self.w_st - self.info.storages:
            self.info.storages.add(s)
            grew = True
        for s in self.w_lists - self.info.lists:
            self.info.lists.add(s)
            grew = True
        return grew

    def _finish(self):
        c = ctx()
        eng = c.engine
        if self.bad:
            raise Unsupported(self.bad)
        if any(x not in self.st0 for x in self.w_st):
            raise Unsupported("a loop writes an array that is not reachable from its frame")
        if any(x not in self.lists0 for x in self.w_lists):
            raise Unsupported("a loop changes a list that is not reachable from its frame")
        grew = self.discover()
        frame = self.get()
        # kinds stay as havocked
        for loc, val in self._locs(frame).items():
            want = self.info.kinds.get(loc)
            ek = want or (fresh_kind(self._entry_val(loc)) if self._has_entry(loc) else None)
            nk = fresh_kind(val)
            if ek is None or ek == nk:
                if ek == "tensor":
                    ev = self._entry_val(loc)
                    if ev.ndim != val.ndim:
                        raise Unsupported("array changes its number of axes in a cut loop")
                    for a, (d0, d1) in enumerate(zip(ev.shape, val.shape)):
                        if not self.info.kinds.get((loc, "dim", a)):
                            if not (d0 is d1 or (isinstance(d0, int) and isinstance(d1, int) and d0 == d1) or (not (isinstance(d0, int) and isinstance(d1, int)) and c.must(d0 == d1))):
                                if DBG:
                                    print("dim", self.key, loc, a, d0, d1)
                                self.info.kinds[(loc, "dim", a)] = True
                                grew = True
                if ek == "obj":
                    ev = self._entry_val(loc)
                    if ev is not val and not (isinstance(ev, str) and ev == val):
                        if loc[0] == "l" and loc[1] in self._target_like(frame):
                            continue
                        self.info.kinds[loc] = "objvar"
                        raise Unsupported(f"object-valued variable {loc[-1]} changes in a cut loop")
                if ek == "list" and self._list_kind(loc, val):
                    grew = True
                continue
            if ek == "int" and nk == "real":
                self.info.kinds[loc] = "real"
                grew = True
            elif ek == "real" and nk == "int":
                pass
            elif isinstance(self._entry_val(loc), Poison):
                pass
            elif loc[0] == "l" and ek == "obj" and self._entry_val(loc) is None and nk in ("int", "real", "bool"):
                raise Unsupported(f"variable {loc[-1]} changes from None in a cut loop")
            else:
                raise Unsupported(f"variable {loc[-1]} changes kind from {ek} to {nk} in a cut loop")
        for s in self.info.lists:
            l = self.lists0.get(s)
            if l is not None and self._list_kind(("L", s), l):
                grew = True
        for lp in c.loop_stack:
            if lp is not self and lp.discover():
                grew = True
        if grew:
            eng.reconsider(c)
            eng.dirty = "now"
            raise PathEnd()
        v = self.view(frame, self.k + 1)
        v.entry_t = self.entry_view.tensors
        self.check_candidates(v, "preserve")
        raise PathEnd()

    def _target_like(self, frame):
        return ()

    def _list_kind(self, loc, l):
        if getattr(l, "upg", False) and self.info.kinds.get((loc, "elem")) != "real":
            self.info.kinds[(loc, "elem")] = "real"
            return True
        return False

    def _has_entry(self, loc):
        return loc in self._entry_locs()

    def _entry_locs(self):
        if not hasattr(self, "_el"):
            self._el = {}
        return self._el

    def _entry_val(self, loc):
        return self._entry_locs().get(loc)


def wrap(e):
    if e.sort() == z3.BoolSort():
        return mkbool(e)
    return core.mknum(e)


_start0 = CutLoop._start


def _start(self):
    # remember entry values per location (for kind checks)
    c = ctx()
    occ = c.loop_count.get(self.site, 0)
    self.info = c.engine.loops.setdefault((self.site, occ) + tuple(c.choices), LoopInfo())
    self.localnames = self.set_.__code__.co_freevars
    self.serial0 = c.serial
    self._el = dict(self._locs(self.get()))
    return _start0(self)


CutLoop._start = _start
