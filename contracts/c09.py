"""C09: trajectories give the defined position at every time index."""
from pyvc.harness import harness

TR = "aspsim.room.trajectory"


def close(V, a, b):
    """numpy.allclose of two points (default tolerances)"""
    return V.and_(*[V.abs(V.at(a, i) - V.at(b, i)) <= 1e-8 + 1e-5 * V.abs(V.at(b, i)) for i in range(V.shape(a)[0])])


def path_inputs(V, num, mode):
    D = V.choice("dimensions", [2, 3])
    pts = V.tensor("points", (num, D))
    period, sr = V.real("period", 0.01, 50), V.int("samplerate", 1, 2000)
    closed = V.choice("ends at the first point", [False, True])
    last, first = pts[num - 1], pts[0]
    if closed:
        for i in range(D):
            pts[num - 1, i] = V.at(pts, 0, i)
        P = [pts[i] for i in range(num)]
    else:
        V.assume(V.not_(close(V, last, first)))
        P = [pts[i] for i in range(num)] + [pts[0]]
    segs = len(P) - 1
    d = [V.sqrt(sum((V.at(P[i], q) - V.at(P[i + 1], q)) ** 2 for q in range(D))) for i in range(segs)]
    for x in d:
        V.assume(x > 1e-3)
    as_list = V.choice("given as list", [False, True])
    arg = [[V.at(pts, i, q) for q in range(D)] for i in range(num)] if as_list else pts
    return D, P, d, segs, period, sr, V.mod(TR).LinearTrajectory(arg, period, sr, mode)


def linear(V, num, mode):
    D, P, d, segs, period, sr, tr = path_inputs(V, num, mode)
    n = V.int("time index", 0)
    pos = tr.current_pos(n)
    V.ensure(V.and_(len(V.shape(pos)) == 2, V.shape(pos)[0] == 1, V.shape(pos)[1] == D), "one row, one column per dimension")
    T = period * sr
    ps = n % T
    total = sum(d)
    if mode == "constant_speed":
        V.lemma(total / (total / T) == T, "the whole path takes one period")
        V.lemma(V.eq(sum(x / (total / T) for x in d), T), "the segment times sum to the period")
    for i in range(segs):
        if mode == "constant_time":
            lo, hi = T * i / segs, T * (i + 1) / segs
            ln = T / segs
        else:
            speed = total / T
            lo = sum((x / speed for x in d[:i]), 0)
            ln = d[i] / speed
            hi = lo + ln
        f = (ps - lo) / ln
        for q in range(D):
            want = V.at(P[i], q) * (1 - f) + V.at(P[i + 1], q) * f
            V.ensure(V.or_(ps < lo, ps >= hi, V.eq(V.at(pos, 0, q), want, tol=1e-6, scale=total)), "the point at this time on the segment of this time")


def mk(num, mode, **kw):
    def f(V):
        linear(V, num, mode)
    f.__name__ = f"linear_{mode}_{num}"
    return harness(functions=[TR + ":LinearTrajectory.__init__", TR + f":LinearTrajectory._{mode}_pos_func", TR + ":Trajectory.current_pos"],
                   fuzz=150, bounded=f"{num} points (all coordinates, periods, sample rates and time indices)", **kw)(f)


HARNESSES = [mk(2, "constant_time"), mk(3, "constant_time"), mk(2, "constant_speed")] + \
            [mk(n, "constant_speed", prove=False) for n in (3, 4, 6)] + [mk(n, "constant_time", prove=False) for n in (4, 6)]


def circ(V):
    r0, dr = V.real("inner radius", 0, 5), V.real("radius difference", 0, 5)
    center = V.choice("center as", ["tuple", "array"])
    c = V.tensor("center", (3,))
    carg = c if center == "array" else (V.at(c, 0), V.at(c, 1), V.at(c, 2))
    rp, ap = V.real("radial period", 0.01, 40), V.real("angle period", 0.01, 40)
    sr = V.int("samplerate", 1, 2000)
    sa = V.real("start angle", -7, 7)
    return r0, r0 + dr, c, rp, ap, sr, sa, V.mod(TR).CircularTrajectory((r0, r0 + dr), carg, rp, ap, sr, sa)


@harness(functions=[TR + ":CircularTrajectory.__init__", TR + ":Trajectory.current_pos"], fuzz=300)
def circular(V):
    r0, r1, c, rp, ap, sr, sa, tr = circ(V)
    t = V.int("time index", 0)
    pos = tr.current_pos(t)
    V.ensure(V.and_(len(V.shape(pos)) == 2, V.shape(pos)[0] == 1, V.shape(pos)[1] == 3), "one row, three columns")
    u = (t % (rp * sr)) / (rp * sr)
    rad = r1 - 2 * (r1 - r0) * V.min(u, 1 - u)
    ang = sa + 2 * V.pi * ((t % (ap * sr)) / (ap * sr))
    V.ensure(V.eq(V.at(pos, 0, 0), V.at(c, 0) + rad * V.cos(ang), tol=1e-6, scale=r1 + 1), "x: center plus current radius in the direction of the current angle")
    V.ensure(V.eq(V.at(pos, 0, 1), V.at(c, 1) + rad * V.sin(ang), tol=1e-6, scale=r1 + 1), "y: center plus current radius in the direction of the current angle")
    V.ensure(V.eq(V.at(pos, 0, 2), V.at(c, 2)), "z: that of the center")
    V.ensure(V.and_(V.le(r0, rad), V.le(rad, r1)), "the radius stays between inner and outer radius")


@harness(functions=[TR + ":TrajectoryCollection.current_pos", TR + ":LinearTrajectory.__init__", TR + ":CircularTrajectory.__init__"], fuzz=200, prove=False)
def pure(V):
    """any trajectory: the position at n is the same whatever was asked before, and again one period later"""
    T = V.mod(TR)
    trs, per = [], []
    for i in range(V.int("members", 1, 3)):
        if V.choice(f"kind{i}", ["linear", "circular"]) == "circular":
            period = V.int(f"period{i}", 1, 6)
            trs.append(T.CircularTrajectory((0.5, V.real(f"outer{i}", 0.5, 3)), tuple(V.tensor(f"center{i}", (3,))), period, period, 100, V.real(f"sa{i}", -3, 3)))
            per.append(period * 100)
        else:
            period = V.int(f"period{i}", 1, 6)
            pts = V.tensor(f"points{i}", (V.int(f"num{i}", 2, 5), 3), lo=-4, hi=4)
            trs.append(T.LinearTrajectory(pts, period, 100, V.choice(f"mode{i}", ["constant_speed", "constant_time"])))
            per.append(period * 100)
    col = T.TrajectoryCollection(trs)
    idxs = [V.int(f"n{k}", 0, 2000) for k in range(6)]
    first = [V.np.array(col.current_pos(n)) for n in idxs]
    for n, p in zip(idxs, first):
        V.ensure(p.shape == (len(trs), 3), "one row per moving point")
    for k in reversed(range(6)):
        V.ensure_eq_t(col.current_pos(idxs[k]), first[k], "the position is a function of the time index only")
        for i, tr in enumerate(trs):
            q = tr.current_pos(idxs[k])
            V.ensure_eq_t(V.np.asarray(q)[0], first[k][i], "each member's position in the order given")
            V.ensure_eq_t(tr.current_pos(idxs[k] + per[i]), q, "periodic with the period", tol=1e-6)


@harness(functions=[TR + ":LinearTrajectory.__init__"], fuzz=100, prove=False)
def linear_visits(V):
    """starts at the first point, and at each point's own time it is at that point"""
    T = V.mod(TR)
    num = V.int("points", 2, 6)
    pts = V.tensor("coordinates", (num, 3), lo=-4, hi=4)
    mode = V.choice("mode", ["constant_speed", "constant_time"])
    d = [float(V.np.linalg.norm(pts[(i + 1) % num] - pts[i])) for i in range(num)]
    V.assume(min(d) > 0.1)
    sr, period = 1000, V.int("period", 1, 20)
    tr = T.LinearTrajectory(pts, period, sr, mode)
    t = 0.0
    speed = sum(d) / (sr * period)
    for i in range(num):
        n = int(V.np.ceil(t))
        p = tr.current_pos(n)[0]
        step = (speed if mode == "constant_speed" else max(d) / (sr * period / num))
        V.ensure(float(V.np.linalg.norm(p - pts[i])) <= 1.01 * step + 1e-6, "visits its points in order, on time", f"point {i} at index {n}: {p} instead of {pts[i]}")
        t += sr * period * (d[i] / sum(d) if mode == "constant_speed" else 1 / num)
    V.ensure_eq_t(tr.current_pos(0)[0], pts[0], "starts at the first point")
