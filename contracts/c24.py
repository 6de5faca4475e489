"""C24: arrays represent the positions, groups and directivity they are given."""
from pyvc.harness import harness

AR = "aspsim.array"
DIRS = ["omni", "cardioid", "hypercardioid", "supercardioid", "bidirectional"]


class Src:
    def __init__(self, n):
        self.num_channels = n
        self.metadata = {"type": "Src", "n": n}

    def get_samples(self, k):
        return ("samples", k)


def make(V, ar, kind, name, pos, num, **kw):
    if kind == "mic":
        return ar.MicArray(name, pos, **kw)
    if kind == "ctrl":
        return ar.ControllableSourceArray(name, pos, **kw)
    return ar.FreeSourceArray(name, pos, Src(num), **kw)


@harness(functions=[AR + ":Array.__init__", AR + ":FreeSourceArray.__init__"], fuzz=300, prove=False)
def construction(V):
    np, ar = V.np, V.mod(AR)
    kind = V.choice("kind", ["mic", "ctrl", "free"])
    how = V.choice("positions given as", ["array", "list", "tuple", "trajectory"])
    kw = {}
    if how == "trajectory":
        tr = V.mod("aspsim.room.trajectory")
        n = V.int("channels", 1, 3)
        p0 = V.tensor("positions", (n, 3))
        pos = tr.Trajectory(lambda t: p0 + t)
        want, groups = p0, 1
    elif how == "array":
        n = V.int("channels", 0, 5)
        pos = V.tensor("positions", (n, 3))
        want, groups = pos.copy(), 1
    else:
        groups = V.int("groups", 1, 4)
        parts = [V.tensor(f"positions{i}", (V.int(f"channels{i}", 0, 3), 3)) for i in range(groups)]
        want = np.concatenate([p.copy() for p in parts])
        n = len(want)
        pos = parts if how == "list" else tuple(parts)
    if V.bool("directivity"):
        d = V.tensor("directions", (n, 3))
        V.assume(np.all(np.linalg.norm(d, axis=-1) > 1e-3))
        kw = dict(directivity_type=[V.choice(f"type{i}", DIRS) for i in range(n)], directivity_dir=d / np.linalg.norm(d, axis=-1, keepdims=True))
    A = make(V, ar, kind, "name", pos, n, **kw)
    V.ensure(A.name == "name", "its name")
    V.ensure_eq_t(A.pos, want, "the positions, unchanged and in order", tol=0)
    V.ensure(A.num == n and A.num == A.pos.shape[0], "one channel per position")
    V.ensure(A.is_mic == (kind == "mic") and A.is_source == (kind != "mic"), "its kind")
    V.ensure(A.dynamic == (how == "trajectory"), "moving exactly when given a trajectory")
    V.ensure(A.num_groups == groups, "the number of groups")
    if how in ("list", "tuple"):
        V.ensure(len(A.group_idxs) == groups, "one set of indices per group")
        flat = [int(i) for g in A.group_idxs for i in g]
        V.ensure(flat == list(range(n)), "groups are disjoint and cover the array in order")
        for g, p in zip(A.group_idxs, parts):
            V.ensure_eq_t(A.pos[np.asarray(g, dtype=int)], p, "a group consists of its positions", tol=0)
    V.ensure(A.metadata["number"] == n and A.metadata["number of groups"] == groups and A.metadata["dynamic"] == A.dynamic and A.metadata["type"] == type(A).__name__, "metadata describe the array")
    if kw:
        V.ensure(list(A.directivity_type) == kw["directivity_type"], "the directivity types given")
        V.ensure_eq_t(A.directivity_dir, kw["directivity_dir"], "the directivity directions given", tol=0)
    else:
        V.ensure(list(A.directivity_type) == ["omni"] * n, "omnidirectional by default")
    if kind == "free":
        V.ensure(A.source.num_channels == n and A.metadata["source info"] == A.source.metadata, "the source given, and its metadata")
        V.ensure(A.get_samples(3) == ("samples", 3), "plays its source")


@harness(functions=[AR + ":Array.__init__", AR + ":FreeSourceArray.set_source"], fuzz=300, prove=False)
def rejection(V):
    np, ar = V.np, V.mod(AR)
    kind = V.choice("kind", ["mic", "ctrl", "free"])
    n = V.int("channels", 1, 4)
    p = V.tensor("positions", (n, 3))
    d = np.tile([[0.0, 1.0, 0.0]], (n, 1))
    what = V.choice("what", ["1-d", "3-d", "nested list", "string", "none", "type only", "direction only", "too few types", "too many types", "too few directions", "unknown type", "not unit", "too long", "wrong source", "mixed dims"])
    kw, pos, num = {}, p, n
    if what == "1-d":
        pos = p[0]
        num = 3
    elif what == "3-d":
        pos = p[None]
        num = 1
    elif what == "nested list":
        pos = p.tolist()
    elif what == "string":
        pos = "positions"
    elif what == "none":
        pos = None
    elif what == "type only":
        kw = dict(directivity_type=["omni"] * n)
    elif what == "direction only":
        kw = dict(directivity_dir=d)
    elif what == "too few types":
        kw = dict(directivity_type=["cardioid"] * (n - 1), directivity_dir=d)
    elif what == "too many types":
        kw = dict(directivity_type=["cardioid"] * (n + 1), directivity_dir=d)
    elif what == "too few directions":
        kw = dict(directivity_type=["cardioid"] * n, directivity_dir=d[1:])
    elif what == "unknown type":
        kw = dict(directivity_type=["cardioid"] * (n - 1) + ["dipole"], directivity_dir=d)
    elif what in ("not unit", "too long"):
        d[V.int("which", 0, n - 1)] *= V.choice("length", [0.0, 0.5, 0.99] if what == "not unit" else [1.01, 2.0])
        kw = dict(directivity_type=["cardioid"] * n, directivity_dir=d)
    elif what == "wrong source":
        kind = "free"
        num = n + V.choice("off", [-1, 1, 3])
    elif what == "mixed dims":
        pos = [p, p[:, :2]]
        num = 2 * n
    V.ensure(V.raises(lambda: make(V, ar, kind, "a", pos, num, **kw)) is not None, f"rejected: {what}")


@harness(functions=[AR + ":RegionArray.__init__"], fuzz=120, prove=False)
def regions(V):
    np, ar, rg = V.np, V.mod(AR), V.mod("aspsim.room.region")
    k = V.int("regions", 1, 3)
    rs = []
    for i in range(k):
        c = V.tensor(f"centre{i}", (3,), lo=-1, hi=1) + np.array([4.0 * i, 0, 0])
        rs.append(rg.Cuboid([V.real(f"size{i}{j}", 0.4, 1) for j in range(3)], c, [0.3, 0.3, 0.3]))
    how = V.choice("given as", ["single", "list", "tuple"])
    arg = rs[0] if how == "single" else (list if how == "list" else tuple)(rs)
    used = rs[:1] if how == "single" else rs
    own = V.bool("own positions")
    p = V.tensor("positions", (V.int("channels", 1, 4), 3))
    A = ar.RegionArray("r", arg, pos=p.copy() if own else None)
    V.ensure(A.is_mic and not A.is_source, "a region is a microphone array")
    want = p if own else np.concatenate([r.equally_spaced_points() for r in used])
    V.ensure_eq_t(A.pos, want, "the given positions, or the equally spaced points of its regions in order", tol=0)
    V.ensure(A.num == len(want), "one channel per position")
    V.ensure(list(A.region_segments) == list(used), "its regions")
    if len(used) == 1:
        V.ensure(A.region is used[0], "the region given")
    V.ensure(A.metadata["region shape"] == type(A.region).__name__, "metadata name the shape")
    if not own:
        V.ensure(A.num_groups == len(used), "one group per region")


@harness(functions=[AR + ":ArrayCollection.add_array", AR + ":ArrayCollection.mic_src_combos", AR + ":ArrayCollection.iter_paths"], fuzz=300, prove=False)
def lists(V):
    np, ar, sm = V.np, V.mod(AR), V.mod("aspsim.simulator")
    setup = sm.SimulatorSetup(None, None, None, np.random.default_rng(0))
    made, where = [], V.bool("directly")
    A = setup.arrays
    V.ensure(A.empty(), "a new collection is empty")
    for i in range(V.int("arrays", 1, 8)):
        name = V.choice(f"name{i}", ["a", "b", "c", "d", "e", "f", "ab", "a~b", "1"])
        kind = V.choice(f"kind{i}", ["mic", "ctrl", "free", "region"])
        n = V.int(f"channels{i}", 1, 3)
        pos = V.tensor(f"pos{i}", (n, 3))
        taken = any(x[0] == name for x in made)
        old = None if not taken else A[name]

        def add():
            if where or kind == "region":
                A.add_array(ar.RegionArray(name, object(), pos=pos) if kind == "region" else make(V, ar, kind, name, pos, n))
            elif kind == "mic":
                setup.add_mics(name, pos)
            elif kind == "ctrl":
                setup.add_controllable_source(name, pos)
            else:
                setup.add_free_source(name, pos, Src(n))
        if taken:
            V.ensure(V.raises(add) is not None, "a duplicate name is rejected")
            V.ensure(A[name] is old, "and the array of that name stays")
        else:
            add()
            made.append((name, kind, pos))
    V.ensure(not A.empty(), "not empty")
    names = lambda it: [x.name for x in it]      # noqa
    mics = [n for n, k, _ in made if k in ("mic", "region")]
    srcs = [n for n, k, _ in made if k in ("ctrl", "free")]
    V.ensure(names(A) == [n for n, *_ in made], "all arrays once, in the order added")
    V.ensure(names(A.mics()) == mics, "the microphone arrays once, in the order added")
    V.ensure(names(A.sources()) == srcs, "the source arrays once, in the order added")
    V.ensure(names(A.free_sources()) == [n for n, k, _ in made if k == "free"], "the free sources once, in the order added")
    V.ensure([(s.name, m.name) for s, m in A.mic_src_combos()] == [(s, m) for s in srcs for m in mics], "every pair of a source and a microphone array once")
    for n, k, p in made:
        V.ensure(n in A and A[n].name == n, "found by name")
        V.ensure_eq_t(A[n].pos, p, "with its positions", tol=0)
    V.ensure("nobody" not in A, "other names are not in the collection")


@harness(functions=[AR + ":Array.set_groups"], fuzz=150, prove=False)
def groups(V):
    np, ar = V.np, V.mod(AR)
    n = V.int("channels", 1, 6)
    A = ar.MicArray("m", V.tensor("pos", (n, 3)))
    perm = list(range(n))
    V.rnd.shuffle(perm)
    k = V.int("groups", 1, n)
    gs = [perm[i::k] for i in range(k)]
    if V.bool("arrays"):
        gs = [np.array(g) for g in gs]
    A.set_groups(gs)
    V.ensure(A.num_groups == k and len(A.group_idxs) == k, "the groups given")
    V.ensure(all(list(a) == list(b) for a, b in zip(A.group_idxs, gs)), "with the members given")
