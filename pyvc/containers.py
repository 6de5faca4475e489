"""Lists, dicts, ranges and iterators that may have symbolic length."""
import z3
from . import core
from .core import SymNum, SymBool, Unsupported, ctx, ite, and_, or_, is_sym, znum
from .tensor import normint, Tensor, SymRangeBase, check_index, kind_of, conc_dim, NpIndexError


def _serial():
    c = core.Ctx.cur
    if c is None:
        return -1
    c.serial += 1
    return c.serial - 1


class VList(list):
    """A Python list. Concrete lists keep their items natively; a symbolic list has
    a symbolic length n and elements given by get(i) (or by prefix sums)."""
    _vlist_ = True

    def __init__(self, items=()):
        if isinstance(items, VList) and not items.concrete:
            super().__init__()
            self._copy_from(items)
        else:
            super().__init__(items)
            self.concrete = True
        self.serial = _serial()

    def _copy_from(self, o):
        self.concrete = False
        self.sn, self.sget, self.kind = o.sn, o.sget, o.kind
        self.spre, self.ssum = o.spre, o.ssum

    @classmethod
    def sym(cls, n, get, kind=None, pre=None, total=None):
        v = cls()
        v.concrete = False
        v.sn, v.sget, v.kind, v.spre, v.ssum = n, get, kind, pre, total
        return v

    # -- observers
    @property
    def n(self):
        return list.__len__(self) if self.concrete else self.sn

    def get(self, i):
        if self.concrete:
            if isinstance(i, int):
                return list.__getitem__(self, i)
            r = list.__getitem__(self, -1)
            for q in range(list.__len__(self) - 2, -1, -1):
                r = ite(i == q, list.__getitem__(self, q), r)
            return r
        return self.sget(i)

    def elem_kind(self):
        if self.kind:
            return self.kind
        return kind_of(self.sget(ctx().fresh("el")))

    def total(self):
        if self.concrete:
            r = 0
            for v in list.__iter__(self):
                r = r + v
            return r
        if self.ssum is not None:
            return self.ssum
        from .tensor import big_op
        self.ssum = big_op("sum", self.sn, self.sget, self.kind or "real")
        return self.ssum

    def prefix(self, i):
        """sum of the first i elements"""
        if self.concrete:
            if isinstance(i, int):
                r = 0
                for v in list(list.__iter__(self))[:i]:
                    r = r + v
                return r
            r = 0
            acc = 0
            out = 0
            vals = list(list.__iter__(self))
            out = sum_list(vals)
            for q in range(len(vals) - 1, -1, -1):
                out = ite(i == q, sum_list(vals[:q]), out)
            return out
        if self.spre is None:
            raise Unsupported("prefix sums of this list")
        return self.spre(i)

    def _len(self):
        return self.n

    def __len__(self):
        if self.concrete:
            return list.__len__(self)
        n = core.try_concrete(self.sn)
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic list reached natively")

    def __bool__(self):
        if self.concrete:
            return list.__len__(self) > 0
        return bool(self.sn > 0)

    def __iter__(self):
        if self.concrete:
            return list.__iter__(self)
        n = core.try_concrete(self.sn)
        if isinstance(n, int):
            return iter([self.sget(i) for i in range(n)])
        raise Unsupported("native iteration over a symbolic list")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.concrete and not any(is_sym(x) for x in (k.start, k.stop, k.step)):
                return VList(list.__getitem__(self, k))
            from .tensor import slice_bounds
            st, step, ln = slice_bounds(k, self.n)
            return VList.sym(ln, lambda i: self.get(normint(st + step * i)), None if self.concrete else self.kind)
        if self.concrete:
            if isinstance(k, int):
                return list.__getitem__(self, k)
            if isinstance(k, SymNum):
                j = core.try_concrete(k)
                if isinstance(j, int):
                    return list.__getitem__(self, j)
                n = list.__len__(self)
                j = check_index(k, n)
                # fork on the position (elements may be arbitrary objects)
                for q in range(n - 1):
                    if bool(j == q):
                        return list.__getitem__(self, q)
                return list.__getitem__(self, n - 1)
            return list.__getitem__(self, k)
        return self.sget(check_index(normint(k), self.sn))

    # -- mutation
    def _note(self):
        c = core.Ctx.cur
        if c is not None and c.loop_stack:
            for lp in c.loop_stack:
                lp.note_list(self)

    def append(self, v):
        self._note()
        if self.concrete:
            return list.append(self, v)
        if self.kind in ("int", "real"):
            k = kind_of(v)
            if k not in ("int", "real"):
                raise Unsupported("non-numeric element appended to a symbolic list")
            if k == "real" and self.kind == "int":
                self.upg = True
        n0, g0, p0, s0 = self.sn, self.sget, self.spre, self.ssum
        self.sn = normint(n0 + 1)
        self.sget = lambda i: ite(i == n0, v, g0(i)) if not (isinstance(i, SymNum) and i is n0) else v
        if p0 is not None:
            s1 = s0 + v
            self.spre = lambda i: ite(i == n0 + 1, s1, p0(i))
            self.ssum = s1
        else:
            self.ssum = None if s0 is None else s0 + v

    def __setitem__(self, k, v):
        self._note()
        if self.concrete:
            if isinstance(k, SymNum):
                k = core.concretize_int(k)
            return list.__setitem__(self, k, v)
        raise Unsupported("item assignment in a symbolic list")

    def _conc(self):
        self._note()
        if not self.concrete:
            raise Unsupported("mutation of a symbolic list")

    def extend(self, it):
        self._conc()
        if isinstance(it, VList) and not it.concrete or isinstance(it, SymIter):
            raise Unsupported("extend by symbolic list")
        return list.extend(self, it)

    def insert(self, i, v):
        self._conc()
        return list.insert(self, i, v)

    def pop(self, *a):
        self._conc()
        return list.pop(self, *a)

    def remove(self, v):
        self._conc()
        return list.remove(self, v)

    def clear(self):
        self._conc()
        return list.clear(self)

    def reverse(self):
        self._conc()
        return list.reverse(self)

    def sort(self, **k):
        self._conc()
        items = sort_sym(list(list.__iter__(self)), **k)
        list.__init__(self, items)

    def copy(self):
        return VList(self)

    def __add__(self, o):
        if self.concrete and (not isinstance(o, VList) or o.concrete):
            return VList(list.__add__(self, list(o)))
        raise Unsupported("concatenation with a symbolic list")

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if is_sym(k):
            k2 = core.try_concrete(k)
            if not isinstance(k2, int):
                if self.concrete and list.__len__(self) == 1:
                    v = list.__getitem__(self, 0)
                    return VList.sym(core.max_(k, 0), lambda i: v, kind_of(v))
                raise Unsupported("list repetition")
            k = k2
        return VList(list.__mul__(self, k))
    __rmul__ = __mul__

    def __contains__(self, v):
        if not self.concrete:
            raise Unsupported("membership in a symbolic list")
        for x in list.__iter__(self):
            if x is v:
                return True
            r = x == v
            if hasattr(r, "_tensor_"):
                r = bool(r)
            if bool(r):
                return True
        return False

    def __eq__(self, o):
        if isinstance(o, VList) and not (self.concrete and o.concrete):
            raise Unsupported("comparison of symbolic lists")
        if not isinstance(o, list):
            return False
        if len(self) != len(o):
            return False
        return and_(*[a == b for a, b in zip(self, o)])

    def __ne__(self, o):
        return core.not_(self == o)
    __hash__ = None

    def index(self, v):
        for i, x in enumerate(self):
            if bool(x == v):
                return i
        raise ValueError("not in list")

    def __deepcopy__(self, memo):
        import copy
        if self.concrete:
            r = VList()
            memo[id(self)] = r
            for x in list.__iter__(self):
                list.append(r, copy.deepcopy(x, memo))
            return r
        return VList(self)

    def __copy__(self):
        return VList(self)

    def __reduce_ex__(self, p):
        return (list, (list(self),))

    def __repr__(self):
        return list.__repr__(self) if self.concrete else f"<VList n={self.sn}>"


def sum_list(vals):
    r = 0
    for v in vals:
        r = r + v
    return r


def sort_sym(items, key=None, reverse=False):
    """insertion sort with forking comparisons"""
    out = []
    kf = key or (lambda x: x)
    for x in items:
        i = len(out)
        while i > 0 and (bool(kf(x) < kf(out[i - 1])) if not reverse else bool(kf(out[i - 1]) < kf(x))):
            i -= 1
        out.insert(i, x)
    return out


class VDict(dict):
    """dict with a write barrier"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.serial = _serial()
        c = core.Ctx.cur
        if c is not None:
            c.objs[self.serial] = self

    def _note(self, k):
        c = core.Ctx.cur
        if c is not None and c.loop_stack:
            for lp in c.loop_stack:
                lp.note_item(self, k)

    def __setitem__(self, k, v):
        self._note(k)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._note(k)
        dict.__delitem__(self, k)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return dict.__getitem__(self, k)

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v

    def pop(self, k, *a):
        self._note(k)
        return dict.pop(self, k, *a)

    def clear(self):
        for k in list(self):
            self._note(k)
        dict.clear(self)

    def copy(self):
        return VDict(dict.items(self))

    def __deepcopy__(self, memo):
        import copy
        r = VDict()
        memo[id(self)] = r
        for k, v in self.items():
            dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return r

    def __reduce_ex__(self, p):
        return (dict, (list(self.items()),))


# ------------------------------------------------------------ iterators
class SymIter:
    """iterable of symbolic length: n, get(i)"""
    _symiter_ = True

    def __init__(self, n, get):
        self.n, self.get = n, get
        self.consumed = 0

    def __iter__(self):
        n = core.try_concrete(self.n)
        if isinstance(n, int):
            return iter([self.get(i) for i in range(n)])
        raise Unsupported("native iteration with symbolic length")

    def __len__(self):
        n = core.try_concrete(self.n)
        if isinstance(n, int):
            return n
        raise Unsupported("len natively")

    def _len(self):
        return self.n

    def __getitem__(self, i):
        return self.get(check_index(normint(i), self.n))


class SymRange(SymIter, SymRangeBase):
    def __init__(self, *a):
        a = [normint(x) for x in a]
        if len(a) == 1:
            start, stop, step = 0, a[0], 1
        elif len(a) == 2:
            start, stop, step = a[0], a[1], 1
        else:
            start, stop, step = a
        self.start, self.stop, self.step = start, stop, step
        c = ctx()
        span = stop - start
        if isinstance(step, int):
            if step == 0:
                raise ValueError("range() arg 3 must not be zero")
            if step < 0:
                span, st = start - stop, -step
            else:
                st = step
            n = span if st == 1 else core.divmod_(span + (st - 1), st)[0]
        else:
            if bool(step == 0):
                raise ValueError("range() arg 3 must not be zero")
            if not bool(step > 0):
                raise Unsupported("negative symbolic range step")
            n = core.divmod_(span + step - 1, step)[0]
        n = normint(n)
        if isinstance(n, int):
            n = max(n, 0)
        elif not c.must(n >= 0):
            n = core.max_(n, 0)
        super().__init__(n, lambda i: normint(start + i * step))


def symiter_of(it):
    """SymIter view of a symbolic-length iterable, else None"""
    if isinstance(it, SymIter):
        n = core.try_concrete(it.n) if is_sym(it.n) else it.n
        return None if isinstance(n, int) else it
    if isinstance(it, VList) and not it.concrete:
        n = core.try_concrete(it.sn) if is_sym(it.sn) else it.sn
        if isinstance(n, int):
            return None
        r = SymIter(it.sn, it.sget)
        r.vlist = it
        return r
    if isinstance(it, Tensor) and it.ndim > 0 and not conc_dim(it.shape[0]):
        n = core.try_concrete(it.shape[0])
        if isinstance(n, int):
            return None
        return SymIter(it.shape[0], lambda i: it[i])
    return None


def vrange(*a):
    a = [x.item() if hasattr(x, "_tensor_") else x for x in a]
    for x in a:
        if isinstance(x, float) or (isinstance(x, SymNum) and not x.is_int):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if any(is_sym(x) for x in a):
        r = SymRange(*a)
        n = core.try_concrete(r.n) if is_sym(r.n) else r.n
        if isinstance(n, int) and n <= 64:
            return SymIter(n, r.get)
        return r
    return range(*[x.__index__() for x in a])


def venumerate(it, start=0):
    s = symiter_of(it)
    if s is None:
        return enumerate(it, start)
    return SymIter(s.n, lambda i: (normint(start + i), s.get(i)))


def vzip(*its, strict=False):
    ss = [symiter_of(it) for it in its]
    if all(s is None for s in ss):
        return zip(*its)
    parts = []
    for it, s in zip(its, ss):
        if s is None:
            if isinstance(it, SymIter):
                s = it
            else:
                it = VList(it)
                s = SymIter(it.n, it.get)
        parts.append(s)
    n = parts[0].n
    for s in parts[1:]:
        if is_sym(s.n) or is_sym(n):
            if z3.simplify(znum(s.n) == znum(n)).eq(z3.BoolVal(True)) or ctx().must(s.n == n):
                continue
            n = core.min_(n, s.n)
        else:
            n = min(n, s.n)
    return SymIter(n, lambda i: tuple(p.get(i) for p in parts))
