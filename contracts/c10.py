"""C10: regions: membership is the geometric set, generated points are members."""
from pyvc.harness import harness

RG = "aspsim.room.region"


class Shape:
    """one region with its geometric definition"""

    def __init__(self, V, kind, tag="", spacing=None, sides=None):
        R = V.mod(RG)
        self.V, self.kind = V, kind
        self.dim = 2 if kind in ("rectangle2", "disc2") else 3
        self.c = V.tensor("center" + tag, (self.dim,), lo=-5, hi=5)
        form = V.choice("center given as" + tag, ["array", "tuple"])
        carg = self.c if form == "array" else tuple(V.at(self.c, i) for i in range(self.dim))
        naxes = 2 if kind.startswith(("rectangle", "disc")) else 3
        if spacing is None:
            sp = tuple([1] * naxes)
        else:
            sp = spacing(naxes)
        self.sp = sp
        kw = dict(point_spacing=sp)
        if tag == "" or True:
            kw["rng"] = V.rng("seed" + tag)
        if kind in ("cuboid", "rectangle2", "rectangle3"):
            n = 3 if kind == "cuboid" else 2
            self.L = [V.real(f"side{i}" + tag, 0.1, 6) if sides is None else sides(i, sp) for i in range(n)]
            self.mk = lambda: (R.Cuboid if n == 3 else R.Rectangle)(tuple(self.L), carg, **kw, **({} if n == 3 else dict(spatial_dim=self.dim)))
        else:
            self.r = V.real("radius" + tag, 0.1, 4)
            if kind.startswith("disc"):
                self.mk = lambda: R.Disc(self.r, carg, spatial_dim=self.dim, **kw)
            elif kind == "ball":
                self.mk = lambda: R.Ball(self.r, carg, **kw)
            else:
                self.h = V.real("height" + tag, 0.1, 6)
                self.mk = lambda: R.Cylinder(self.r, self.h, carg, **kw)

    planar = property(lambda self: self.kind in ("rectangle3", "disc3"))

    def region(self):
        return self.mk()

    def inside(self, p, tol=0):
        """point p (function of the axis) in the geometric set, up to tol"""
        V, k = self.V, self.kind
        d = [p(i) - V.at(self.c, i) for i in range(self.dim)]
        pl = [V.abs(d[2]) <= tol] if self.planar else []
        if k in ("cuboid", "rectangle2", "rectangle3"):
            return V.and_(*pl, *[V.and_(2 * d[i] <= self.L[i] + tol, -2 * d[i] <= self.L[i] + tol) for i in range(len(self.L))])
        n = 3 if k == "ball" else 2
        ax = [V.and_(2 * d[2] <= self.h + tol, -2 * d[2] <= self.h + tol)] if k == "cylinder" else []
        return V.and_(*pl, *ax, sum(d[i] * d[i] for i in range(n)) <= self.r * self.r + tol * (1 + 2 * self.r))

    def definite(self, p):
        """not so close to the boundary that rounding decides (real runs only)"""
        if not self.V.real:
            return True
        return bool(self.inside(p, 1e-7)) == bool(self.inside(p, -1e-7)) if not self.planar else \
            bool(self.inside(p, 1e-7)) == bool(self.inside(lambda i: p(i) if i < 2 else self.c[2] + 0, 0) and abs(p(2) - self.c[2]) < 1e-7)


KINDS = ["cuboid", "rectangle2", "rectangle3", "disc2", "disc3", "ball", "cylinder"]
CLS = {"cuboid": "Cuboid", "rectangle2": "Rectangle", "rectangle3": "Rectangle", "disc2": "Disc", "disc3": "Disc", "ball": "Ball", "cylinder": "Cylinder"}


def query_points(V, s, N, tag=""):
    """N points around the region, for planar regions in the plane or clearly out of it"""
    off = V.tensor("offset" + tag, (N, s.dim), lo=-7, hi=7)
    if not s.planar:
        return V.fnarray((N, s.dim), lambda i, j: V.at(s.c, j) + V.at(off, i, j))
    on = V.tensor("in plane" + tag, (N,), "int", 0, 2)
    return V.fnarray((N, 3), lambda i, j: V.at(s.c, j) + V.ite(V.and_(j == 2, V.at(on, i) > 0), 0, V.at(off, i, j) + V.ite(V.and_(j == 2, V.at(off, i, j) >= 0), 1, V.ite(j == 2, -1, 0))))


def membership(V, kind):
    s = Shape(V, kind)
    reg = s.region()
    N = V.int("points", 1, near=3)
    V.require_small(N)
    X = query_points(V, s, N)
    r = reg.is_in_region(X)
    V.ensure(V.and_(len(V.shape(r)) == 1, V.shape(r)[0] == N), "one answer per point")
    V.forall((N,), lambda i: V.or_(V.not_(s.definite(lambda q: V.at(X, i, q))), V.iff(V.at(r, i), s.inside(lambda q: V.at(X, i, q)))),
             "a point is a member exactly if it lies in the geometric set")


def sampling(V, kind):
    s = Shape(V, kind)
    reg = s.region()
    N = V.int("points", 1, near=3)
    V.require_small(N)
    X = reg.sample_points(N)
    V.ensure(V.and_(len(V.shape(X)) == 2, V.shape(X)[0] == N, V.shape(X)[1] == s.dim), "the requested number of points")
    V.forall((N,), lambda i: s.inside(lambda q: V.at(X, i, q), 1e-9 if V.real else 0), "every sampled point is in the geometric set")


def mk_m(kind):
    def f(V):
        membership(V, kind)
    f.__name__ = "membership_" + kind
    c = CLS[kind]
    return harness(functions=[RG + f":{c}.__init__", RG + f":{c}.is_in_region"], fuzz=150)(f)


def mk_s(kind):
    def f(V):
        sampling(V, kind)
    f.__name__ = "sampling_" + kind
    c = CLS[kind]
    return harness(functions=[RG + f":{c}.__init__", RG + f":{c}.sample_points"], fuzz=150, prove=kind != "ball")(f)


def grid(V, kind):
    np = V.np
    s = Shape(V, kind, spacing=lambda n: tuple(V.real(f"spacing{i}", 0.2, 2) for i in range(n)))
    ext = list(s.L) if hasattr(s, "L") else [2 * s.r] * (3 if kind == "ball" else 2) + ([s.h] if kind == "cylinder" else [])
    V.assume(all(e >= d for e, d in zip(ext, s.sp)))     # the region is at least as large as the spacing
    P = s.region().equally_spaced_points()
    V.ensure(P.ndim == 2 and P.shape[1] == s.dim and (P.shape[0] >= 1 or not (hasattr(s, "L") or max(s.sp) < 0.7 * s.r)), "points of the right dimension")
    for p in P:
        V.ensure(s.inside(lambda q: p[q], 1e-7), "every grid point is in the geometric set")
    V.ensure(np.asarray(s.region().is_in_region(np.array(s.c)[None, :] + (P - s.c) * (1 - 1e-9))).all(), "every grid point is a member")
    M = 2 * s.c - P
    for m in M:
        V.ensure(np.min(np.max(np.abs(P - m), axis=1)) < 1e-6, "the grid is symmetric about the center")
    V.ensure(len(np.unique(np.round(P, 9), axis=0)) == P.shape[0], "no point twice")
    for i, d in enumerate(s.sp):
        # along each axis through a point the next point is at most the spacing away
        other = [j for j in range(s.dim) if j != i]
        lines = {}
        for p in P:
            lines.setdefault(tuple(np.round(p[other], 6)), []).append(p[i])
        for v in lines.values():
            g = np.diff(np.sort(v))
            V.ensure(g.size == 0 or g.max() <= d * (1 + 1e-9) + 1e-9, "neighbours are no further apart than the spacing")
            if hasattr(s, "L"):
                V.ensure(s.L[i] - (np.max(v) - np.min(v)) <= 2 * d + 1e-9, "the grid reaches the sides up to the spacing")
    if not hasattr(s, "L") and max(s.sp) < 0.7 * s.r:
        # a disc/ball/cylinder is filled: each point of the set has a grid point nearby
        u = s.region().sample_points(20)
        for p in u:
            inner = s.c + (p - s.c) * max(0.0, 1 - 1.0 * max(s.sp) * 1.8 / (max(ext) / 2))
            V.ensure(np.min(np.linalg.norm(P - inner, axis=1)) <= 1.01 * float(np.linalg.norm(s.sp)) + 1e-6, "the grid fills the region")


def mk_g(kind):
    def f(V):
        grid(V, kind)
    f.__name__ = "grid_" + kind
    return harness(functions=[RG + f":{CLS[kind]}.equally_spaced_points"], fuzz=60, prove=False)(f)


HARNESSES = [mk_m(k) for k in KINDS] + [mk_s(k) for k in KINDS] + [mk_g(k) for k in KINDS]


@harness(functions=[RG + ":Cuboid.equally_spaced_points"], fuzz=60, bounded="at most 2 points per axis")
def grid_cuboid_few(V):
    box_grid(V, "cuboid")


@harness(functions=[RG + ":Rectangle.equally_spaced_points"], fuzz=60, bounded="at most 2 points per axis")
def grid_rectangle_few(V):
    box_grid(V, "rectangle3")


def box_grid(V, kind):
    n = [V.choice(f"points{i}", [1, 2]) for i in range(3 if kind == "cuboid" else 2)]
    s = Shape(V, kind, spacing=lambda n: tuple(V.real(f"spacing{i}", 0.2, 2) for i in range(n)),
              sides=lambda i, sp: sp[i] * (n[i] + V.real(f"rest{i}", 0.001, 0.999)))
    P = s.region().equally_spaced_points()
    tot = 1
    for k in n:
        tot *= k
    V.ensure(V.and_(V.shape(P)[0] == tot, V.shape(P)[1] == s.dim), "as many points as fit")
    want = [(i, j, k) for j in range(n[1]) for i in range(n[0]) for k in range(n[2] if len(n) > 2 else 1)]
    for w in want:
        V.ensure(V.or_(*[V.and_(*[V.eq(V.at(P, r, a) - V.at(s.c, a), ((2 * w[a] - (n[a] - 1)) * s.sp[a]) / 2 if a < len(n) else 0, tol=1e-6) for a in range(3)]) for r in range(tot)]),
                 "each point of the symmetric grid with the requested spacing is there")
