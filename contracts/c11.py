"""C11: a combined region is the union of its parts."""
from pyvc.harness import harness
from contracts.c10 import Shape, KINDS, query_points

RG = "aspsim.room.region"
CR = RG + ":CombinedRegion."


def stub_parts(V, num):
    """arbitrary parts: membership is an arbitrary function of (part, point), volumes are arbitrary"""
    N = V.int("points", 1, 6)

    class Part:
        def __init__(self, i):
            self.i = i
            self.volume = V.real(f"volume{i}", 0.1, 5)
            self.member = V.fn(f"member{i}", 1, "bool")
            self.npts = V.int(f"grid points{i}", 1, 5)
            self.grid = V.tensor(f"grid{i}", (self.npts, 3))
            self.asked = []

        def is_in_region(self, X):
            return V.fnarray((V.shape(X)[0],), lambda k: self.member(k), "bool")

        def equally_spaced_points(self):
            return self.grid

        def sample_points(self, n):
            self.asked.append(n)
            return V.fnarray((n, 3), lambda k, q: self.i)
    return N, [Part(i) for i in range(num)]


def make(V, parts):
    """the constructor rejects overlapping parts by a randomized test, which is not the subject here"""
    C = V.mod(RG).CombinedRegion
    V.patch(C, "_overlaps", lambda self: False, both=True)
    return C(V.mklist(parts), V.rng("seed"))


def union(V, num):
    N, parts = stub_parts(V, num)
    reg = make(V, parts)
    X = V.tensor("coordinates", (N, 3))
    r = reg.is_in_region(X)
    V.ensure(V.and_(len(V.shape(r)) == 1, V.shape(r)[0] == N), "one answer per point")
    V.forall((N,), lambda i: V.iff(V.at(r, i), V.or_(*[p.member(i) for p in parts])), "a member exactly if a member of at least one part")
    g = reg.equally_spaced_points()
    tot = sum(p.npts for p in parts)
    V.ensure(V.and_(V.shape(g)[0] == tot, V.shape(g)[1] == 3), "all grid points of the parts")
    off = 0
    for p in parts:
        V.forall((p.npts, 3), lambda k, q, o=off, pp=p: V.eq(V.at(g, o + k, q), V.at(pp.grid, k, q)), "the grid points of the parts in order")
        off = off + p.npts


def mk_union(num):
    def f(V):
        union(V, num)
    f.__name__ = f"union_{num}"
    return harness(functions=[CR + "__init__", CR + "is_in_region", CR + "equally_spaced_points"], fuzz=100, bounded=f"{num} parts (any parts, any points)")(f)


def weights(V, num, npts):
    _, parts = stub_parts(V, num)
    reg = make(V, parts)
    X = reg.sample_points(npts)
    V.ensure(V.and_(V.shape(X)[0] == npts, V.shape(X)[1] == 3), "the requested number of points")
    u = V.rng("seed").uniform(0, 1, npts)
    vol = [p.volume for p in parts]
    total = sum(vol)
    for i in range(num):
        lo, hi = sum(vol[:i]), sum(vol[:i + 1])
        # a uniform number in [0, total) is in this interval with probability volume / total
        want = sum(V.ite(V.and_(V.at(u, k) * total >= lo, V.at(u, k) * total < hi), 1, 0) for k in range(npts))
        got = sum(V.ite(V.eq(V.at(X, k, 0), i), 1, 0) for k in range(npts))
        V.ensure(want == got, "each part is chosen with probability proportional to its volume")


def mk_weights(num, npts):
    def f(V):
        weights(V, num, npts)
    f.__name__ = f"weights_{num}_{npts}"
    return harness(functions=[CR + "__init__", CR + "sample_points"], fuzz=0, bounded=f"{num} parts of any volume, {npts} points", replay=False)(f)


@harness(functions=[CR + "sample_points", CR + "is_in_region"], fuzz=80, prove=False)
def real_parts(V):
    """disjoint parts of all kinds, far apart; statistics of the chosen parts"""
    np = V.np
    R = V.mod(RG)
    num = V.int("parts", 1, 4)
    planar = V.bool("planar")
    shapes, regs = [], []
    for i in range(num):
        k = V.choice(f"kind{i}", ["rectangle2", "disc2"] if planar else [q for q in KINDS if not q.endswith("2")])
        s = Shape(V, k, tag=str(i), spacing=lambda n: (0.5,) * n)
        # move the parts apart, keep them large enough for their own grid
        if hasattr(s, "L"):
            s.L = [max(x, 0.6) for x in s.L]
        else:
            s.r = max(s.r, 0.6)
            if hasattr(s, "h"):
                s.h = max(s.h, 0.6)
        s.c = s.c.copy()
        s.c[0] = 20.0 * i
        kw = dict(point_spacing=s.sp, rng=V.rng(f"seed{i}"))
        reg = (R.Cuboid(tuple(s.L), s.c, **kw) if k == "cuboid" else R.Rectangle(tuple(s.L), s.c, spatial_dim=s.dim, **kw) if k.startswith("rect") else
               R.Disc(s.r, s.c, spatial_dim=s.dim, **kw) if k.startswith("disc") else R.Ball(s.r, s.c, **kw) if k == "ball" else R.Cylinder(s.r, s.h, s.c, **kw))
        shapes.append(s)
        regs.append(reg)
    vol = []
    for s in shapes:
        a = np.prod(s.L) if hasattr(s, "L") else np.pi * s.r ** 2 if s.kind.startswith("disc") else 4 / 3 * np.pi * s.r ** 3 if s.kind == "ball" else np.pi * s.r ** 2 * s.h
        vol.append(float(a))
    for reg, v in zip(regs, vol):
        V.ensure(abs(float(reg.volume) - v) < 1e-9 * max(1, v), "volume of a part")
    both = R.CombinedRegion(list(regs), V.rng("seed"))
    N = V.int("points", 1, 40)
    X = both.sample_points(N)
    V.ensure(X.shape == (N, shapes[0].dim), "the requested number of points")
    for x in X:
        V.ensure(any(s.inside(lambda q: x[q], 1e-9) for s in shapes), "every sampled point lies in a part")
    pts = np.concatenate([s.c[None, :] + 3 * np.random.default_rng(int(V.int(f"q{i}", 0, 10 ** 6))).normal(size=(15, s.dim)) * (np.array([1, 1, 0])[: s.dim] if s.planar and i % 2 else 1) for i, s in enumerate(shapes)] + [X])
    got = both.is_in_region(pts)
    V.ensure(np.shape(got) == (len(pts),), "one answer per point")
    for k, p in enumerate(pts):
        if all(s.definite(lambda q: p[q]) for s in shapes):
            V.ensure(bool(got[k]) == any(bool(s.inside(lambda q: p[q], 1e-9)) for s in shapes), "a member exactly if a member of at least one part", f"point {p}")
    g = both.equally_spaced_points()
    V.ensure_eq_t(g, np.concatenate([r.equally_spaced_points() for r in regs]), "the grid points of the parts in order")
    M = 3000
    Y = both.sample_points(M)
    part = np.rint(Y[:, 0] / 20.0).astype(int)
    for i in range(num):
        p = vol[i] / sum(vol)
        V.ensure(abs(np.mean(part == i) - p) <= 6 * np.sqrt(p * (1 - p) / M) + 1e-3, "each part is chosen with probability proportional to its volume",
                 f"part {i}: {np.mean(part == i)} instead of {p}")


HARNESSES = [mk_union(n) for n in (1, 2, 3)] + [mk_weights(2, 1), mk_weights(3, 1), mk_weights(2, 2), mk_weights(3, 2)]
