"""C20: coordinate transforms and point layouts have the geometry they state."""
from pyvc.harness import harness

GP = "aspsim.room.generatepoints"


def f(*names):
    return [GP + ":" + n for n in names]


def spec3(V, v):
    """special values (axes, origin) are drawn often in real runs"""
    return v


@harness(functions=f("cart2spherical"), fuzz=200)
def spherical_angles(V):
    N = V.int("points", 1, near=2)
    V.require_small(N)
    X = V.tensor("x", (N, 3))
    r, ang = V.mod(GP).cart2spherical(X)
    V.ensure(V.and_(V.shape(r)[0] == N, V.shape(ang)[0] == N, V.shape(ang)[1] == 2), "one radius and two angles per point")
    V.forall((N,), lambda i: V.and_(V.le(V.at(r, i), 0) if False else V.at(r, i) >= 0,
                                    V.eq(V.at(r, i) * V.at(r, i), V.at(X, i, 0) ** 2 + V.at(X, i, 1) ** 2 + V.at(X, i, 2) ** 2)), "radius is the distance from the origin")
    V.forall((N,), lambda i: V.and_(V.at(ang, i, 0) >= -V.pi, V.at(ang, i, 0) <= V.pi, V.at(ang, i, 1) >= 0, V.at(ang, i, 1) <= V.pi),
             "azimuth within [-pi, pi], zenith angle within [0, pi]")


def with_axes(V, name, N, d):
    """arbitrary points; zeros and axis points are frequent in real runs"""
    z = V.tensor(name + " zero", (N, d), "int", 0, 2)
    x = V.tensor(name, (N, d))
    return V.fnarray((N, d), lambda i, j: V.ite(V.at(z, i, j) == 0, 0, V.at(x, i, j)))


@harness(functions=f("cart2spherical", "spherical2cart"), fuzz=200)
def spherical_roundtrip(V):
    N = V.int("points", 1, near=2)
    V.require_small(N)
    X = with_axes(V, "x", N, 3)
    m = V.mod(GP)
    r, ang = m.cart2spherical(X)
    Y = m.spherical2cart(r if V.choice("radius as", ["vector", "column"]) == "vector" else V.np.expand_dims(r, 1), ang)
    V.ensure(V.and_(V.shape(Y)[0] == N, V.shape(Y)[1] == 3), "as many points")
    V.forall((N,), lambda i: V.and_(*[V.eq(V.at(Y, i, q), V.at(X, i, q), tol=1e-7, scale=1) for q in range(3)]), "back at the same point")


@harness(functions=f("cart2pol", "pol2cart"), fuzz=200)
def polar_roundtrip(V):
    N = V.int("points", 1, near=2)
    V.require_small(N)
    X = with_axes(V, "x", N, 2)
    m = V.mod(GP)
    r, a = m.cart2pol(X[:, 0], X[:, 1])
    V.forall((N,), lambda i: V.and_(V.at(r, i) >= 0, V.at(a, i) >= -V.pi, V.at(a, i) <= V.pi), "radius non-negative, angle within [-pi, pi]")
    x, y = m.pol2cart(r, a)
    V.forall((N,), lambda i: V.and_(V.eq(V.at(x, i), V.at(X, i, 0)), V.eq(V.at(y, i), V.at(X, i, 1))), "back at the same point")


@harness(functions=f("spherical2cart"), fuzz=200)
def spherical2cart(V):
    N = V.int("points", 1, near=2)
    V.require_small(N)
    r, ang = V.tensor("r", (N,), lo=0, hi=9), V.tensor("angles", (N, 2), lo=-4, hi=4)
    Y = V.mod(GP).spherical2cart(r, ang)
    V.forall((N,), lambda i: V.and_(V.eq(V.at(Y, i, 0), V.at(r, i) * V.cos(V.at(ang, i, 0)) * V.sin(V.at(ang, i, 1))),
                                    V.eq(V.at(Y, i, 1), V.at(r, i) * V.sin(V.at(ang, i, 0)) * V.sin(V.at(ang, i, 1))),
                                    V.eq(V.at(Y, i, 2), V.at(r, i) * V.cos(V.at(ang, i, 1)))), "the point with these spherical coordinates")


@harness(functions=f("equiangular_circle", "pol2cart"), fuzz=200)
def circle(V):
    n = V.int("points", 1)
    V.require_small(n)
    form = V.choice("radius given as", ["number", "interval"])
    r = V.real("radius", 0, 5)
    r2 = r if form == "number" else r + V.real("width", 0, 3)
    sa = V.real("start angle", -7, 7)
    z = V.choice("z", [None, "value"])
    zv = None if z is None else V.real("z value")
    P = V.mod(GP).equiangular_circle(n, r if form == "number" else (r, r2), sa, zv, V.rng("seed"))
    V.ensure(V.and_(V.shape(P)[0] == n, V.shape(P)[1] == (2 if z is None else 3)), "the requested number of points")

    def ok(i):
        a = sa + i * (2 * V.pi / n)
        rr = V.at(P, i, 0) * V.cos(a) + V.at(P, i, 1) * V.sin(a)     # distance along the direction of the angle
        return V.and_(V.le(r, rr), V.le(rr, r2), V.eq(V.at(P, i, 0), rr * V.cos(a), scale=5), V.eq(V.at(P, i, 1), rr * V.sin(a), scale=5),
                      z is None or V.eq(V.at(P, i, 2), zv))
    V.forall((n,), ok, "point i is at angle start + i*2pi/n and at the given radius")


@harness(functions=f("uniform_filled_rectangle"), fuzz=150, bounded="1 to 3 points per side")
def filled_rectangle(V):
    k = V.choice("per side", [1, 2, 3])
    lim = V.tensor("limits", (4,))
    form = V.choice("limits given as", [2, 4])
    z = V.choice("z", [None, "value"])
    zv = None if z is None else V.real("z value")
    L = [V.at(lim, i) for i in range(4)]
    P = V.mod(GP).uniform_filled_rectangle(k * k, tuple(L) if form == 4 else (L[0], L[1]), zv)
    rect_grid(V, P, k, (L[0], L[2]) if form == 4 else (L[0], L[1]), (L[1], L[3]) if form == 4 else (L[0], L[1]), zv)


def rect_grid(V, P, k, xl, yl, zv):
    V.ensure(V.and_(V.shape(P)[0] == k * k, V.shape(P)[1] == (2 if zv is None else 3)), "the requested number of points")

    def line(lim, i):
        return lim[0] if k == 1 else lim[0] + (lim[1] - lim[0]) * i / (k - 1)
    for i in range(k):
        for j in range(k):
            V.ensure(V.or_(*[V.and_(V.eq(V.at(P, q, 0), line(xl, i), scale=100), V.eq(V.at(P, q, 1), line(yl, j), scale=100), zv is None or V.eq(V.at(P, q, 2), zv)) for q in range(k * k)]),
                     "every point of the even grid over the limits is there")


@harness(functions=f("uniform_filled_rectangle"), fuzz=60, prove=False)
def filled_rectangle_large(V):
    k = V.int("per side", 4, 14)
    lim = V.tensor("limits", (4,))
    P = V.mod(GP).uniform_filled_rectangle(k * k, tuple(lim), None)
    np = V.np
    V.ensure(P.shape == (k * k, 2), "the requested number of points")
    want = np.array([(x, y) for x in np.linspace(lim[0], lim[2], k) for y in np.linspace(lim[1], lim[3], k)])
    V.ensure_eq_t(np.array(sorted(map(tuple, np.round(P, 6)))), np.array(sorted(map(tuple, np.round(want, 6)))), "every point of the even grid over the limits is there", tol=1e-5)


@harness(functions=f("uniform_filled_cuboid"), fuzz=100, bounded="1 to 2 points per side and height")
def filled_cuboid(V):
    k, kz = V.choice("per side", [1, 2]), V.choice("per height", [1, 2])
    d = [V.real(f"dim{i}", 0, 9) for i in range(3)]
    P = V.mod(GP).uniform_filled_cuboid(k * k * kz, d, kz)
    V.ensure(V.and_(V.shape(P)[0] == k * k * kz, V.shape(P)[1] == 3), "the requested number of points")
    n = (k, k, kz)
    for a in range(k):
        for b in range(k):
            for c in range(kz):
                V.ensure(V.or_(*[V.and_(*[V.eq(V.at(P, q, x), -d[x] / 2 + d[x] * (2 * w + 1) / (2 * n[x]), scale=10) for x, w in enumerate((a, b, c))]) for q in range(k * k * kz)]),
                         "every cell of the even division of the cuboid has its center point")


@harness(functions=f("uniform_filled_cuboid"), fuzz=60, prove=False)
def filled_cuboid_large(V):
    np = V.np
    k, kz = V.int("per side", 1, 7), V.int("per height", 1, 6)
    d = [V.real(f"dim{i}", 0, 9) for i in range(3)]
    P = V.mod(GP).uniform_filled_cuboid(k * k * kz, d, kz)
    ax = [-d[i] / 2 + d[i] * (2 * np.arange(n) + 1) / (2 * n) for i, n in enumerate((k, k, kz))]
    want = np.array([(x, y, z) for x in ax[0] for y in ax[1] for z in ax[2]])
    V.ensure(P.shape == want.shape, "the requested number of points")
    V.ensure_eq_t(np.array(sorted(map(tuple, np.round(P, 6)))), np.array(sorted(map(tuple, np.round(want, 6)))), "every cell of the even division of the cuboid has its center point", tol=1e-5)


def perimeter(V, sl, p):
    """position of p along the perimeter from the corner (-x, +y), or None"""
    hx, hy = sl[0] / 2, sl[1] / 2
    t = 1e-7 * max(sl)
    x, y = float(p[0]), float(p[1])
    if abs(y - hy) < t and -hx - t <= x <= hx + t:
        return x + hx
    if abs(x - hx) < t and -hy - t <= y <= hy + t:
        return sl[0] + (hy - y)
    if abs(y + hy) < t and -hx - t <= x <= hx + t:
        return sl[0] + sl[1] + (hx - x)
    if abs(x + hx) < t and -hy - t <= y <= hy + t:
        return 2 * sl[0] + sl[1] + (y + hy)
    return None


def on_rectangle(V, P, sl, offset, first=True):
    np = V.np
    n = len(P)
    pos = []
    for p in P:
        q = perimeter(V, sl, p)
        V.ensure(q is not None, "every point lies on a side of the rectangle", f"{p} sides {sl}")
        pos.append(q)
    C = 2 * (sl[0] + sl[1])
    want = (np.arange(n) + offset) * C / n
    a, b = np.sort(np.mod(pos, C)), np.sort(np.mod(want, C))
    # compare on the circle (0 and C are the same point)
    best = min(float(np.max(np.abs(np.mod(np.roll(a, s) - b + C / 2, C) - C / 2))) for s in (-1, 0, 1))
    V.ensure(best < 1e-6 * C, "equal distance along the perimeter, from the given offset", f"{a} instead of {b}")


@harness(functions=f("equidistant_rectangle"), fuzz=300, prove=False)
def rectangle(V):
    n = V.int("points", 1, 40)
    kind = V.choice("sides", ["real", "int", "square"])
    sl = [V.real("sx", 0.1, 6), V.real("sy", 0.1, 6)] if kind == "real" else [V.int("ix", 1, 5), V.int("iy", 1, 5)]
    if kind == "square":
        sl = [sl[0], sl[0]]
    offset = V.choice("offset", [0, 0.5, 1, "any"])
    if offset == "any":
        offset = V.real("offset value", 0, 1)
    z = V.choice("z", [None, 1.5])
    P = V.mod(GP).equidistant_rectangle(n, sl, 0, offset, z)
    V.ensure(P.shape == (n, 2 if z is None else 3), "the requested number of points", f"{P.shape}")
    V.ensure(z is None or bool((P[:, 2] == z).all()), "all points at the given height")
    on_rectangle(V, P[:, :2], [float(x) for x in sl], offset)


@harness(functions=f("stacked_equidistant_rectangles", "equidistant_rectangle"), fuzz=100, prove=False)
def stacked(V):
    np = V.np
    k = V.int("rectangles", 1, 5)
    n = V.int("points", k, 60)
    sl = [V.real("sx", 0.1, 6), V.real("sy", 0.1, 6)]
    dz = V.real("distance", 0.1, 3)
    P = V.mod(GP).stacked_equidistant_rectangles(n, k, sl, dz)
    V.ensure(P.shape == (n, 3), "the requested number of points")
    zs = (np.arange(k) - (k - 1) / 2) * dz if k % 2 == 0 else (np.arange(k) - k // 2) * dz
    cnt = [n // k + (1 if i < n % k else 0) for i in range(k)]
    for i in range(k):
        sel = P[np.abs(P[:, 2] - zs[i]) < 1e-9]
        V.ensure(len(sel) == cnt[i], "points divided evenly over the rectangles")
        on_rectangle(V, sel[:, :2], sl, (2 * i + 1) / (2 * k))


@harness(functions=f("sunflower_pattern", "pol2cart"), fuzz=150)
def sunflower(V):
    n, r = V.int("points", 1), V.real("radius", 0, 5)
    V.require_small(n)
    P = V.mod(GP).sunflower_pattern(n, r)
    V.ensure(V.and_(V.shape(P)[0] == n, V.shape(P)[1] == 2), "the requested number of points")
    V.forall((n,), lambda i: V.le(V.at(P, i, 0) * V.at(P, i, 0) + V.at(P, i, 1) * V.at(P, i, 1), r * r), "every point is within the radius")


@harness(functions=f("uniform_cylinder", "sunflower_pattern"), fuzz=150, prove=False)
def cylinder(V):
    n, r, h = V.int("points", 4, 80), V.real("radius", 0, 5), V.real("height", 0, 5)
    P = V.mod(GP).uniform_cylinder(n, r, h)
    V.ensure(P.shape == (n - n % 4, 3), "points in four planes")
    V.ensure(bool((P[:, 0] ** 2 + P[:, 1] ** 2 <= r * r * (1 + 1e-9) + 1e-12).all()), "every point is within the radius")
    V.ensure(bool((V.np.abs(P[:, 2]) <= h / 2 + 1e-12).all()), "every point is within the height")
    zs = V.np.unique(V.np.round(P[:, 2], 9))
    V.ensure(h < 1e-3 or len(zs) == 4 and float(V.np.ptp(V.np.diff(zs))) < 1e-6 * max(1, h), "evenly spaced planes")


@harness(functions=f("uniform_disc"), fuzz=150, prove=False)
def disc(V):
    np = V.np
    r = V.real("radius", 0.5, 5)
    d = V.real("distance", 0.1, 0.5)
    z = V.choice("z", [None, 1.5])
    P = V.mod(GP).uniform_disc(d, r, z)
    V.ensure(P.ndim == 2 and P.shape[1] == (2 if z is None else 3), "points of the right dimension")
    V.ensure(bool((P[:, 0] ** 2 + P[:, 1] ** 2 <= r * r * (1 + 1e-9)).all()), "every point is within the radius")
    V.ensure(z is None or bool((P[:, 2] == z).all()), "all points at the given height")
    k = int(2 * r / d)
    ax = np.linspace(-r, r, k)
    want = np.array([(x, y) for x in ax for y in ax])
    rad = np.hypot(want[:, 0], want[:, 1])
    V.ensure(int((rad < r * (1 - 1e-9)).sum()) <= len(P) <= int((rad <= r * (1 + 1e-9)).sum()), "the even grid points within the radius, each once")
    for p in P:
        V.ensure(float(np.min(np.max(np.abs(want - p[:2]), axis=1))) < 1e-9 * r, "every point is on the even grid")
