"""C22: simulators of one setup are independent of the setup and of each other."""
from pyvc.harness import harness
from contracts import scene as sc

SS = "aspsim.simulator:SimulatorSetup."


class World:
    """a setup together with everything the user still holds that was given to it"""
    def __init__(self, V):
        np, sm = V.np, V.mod("aspsim.simulator")
        self.V = V
        self.setup = sm.SimulatorSetup(None, None, None, np.random.default_rng(5))
        si = sc.info(V, 8, 12, 40, rt60=0.0, extra_delay=1, max_room_ir_length=14, samplerate=1000, room_size=[5.0, 5.0, 5.0], room_center=[0.0, 0.0, 0.0])
        self.setup.sim_info = si
        self.held = {}        # arrays and positions, source objects, paths, trajectories by name

    def source(self, kind, num, seed):
        np, so = self.V.np, self.V.mod("aspsim.signal.sources")
        g = np.random.default_rng(seed)
        return {"white": lambda: so.WhiteNoiseSource(num, 1.5, g), "sine": lambda: so.SineSource(num, 2.0, 100.0, 1000, g), "sequence": lambda: so.Sequence(g.normal(size=(num, 7))),
                "band": lambda: so.BandlimitedNoiseSource(num, 1.0, (100, 300), 1000, g), "pulse": lambda: so.PulseTrain(num, [1.0] * num, [3] * num, [0] * num),
                "gold": lambda: so.GoldSequenceSource(num, 1.0, 5), "stream": lambda: sc.Stream(g.normal(size=(num, 400)))}[kind]()


SOURCES = ["white", "sine", "sequence", "band", "pulse", "gold", "stream"]


def operation(V, g, state, k):
    """draws the next operation; returns a function of a World, equal for the setup under test and for the reference"""
    np = V.np
    names = state["names"]
    srcs, mics = [n for n in names if n[0] != "m"], [n for n in names if n[0] == "m"]
    what = V.choice(f"step{k}", ["array", "array", "create", "create", "run", "run", "path", "type", "config", "draw", "mutate position", "mutate path", "move array", "source", "mutate config", "use simulator arrays"])

    def pick(xs):
        return xs[int(g.integers(len(xs)))]
    if what == "array":
        kind = pick("ffcmm")
        name = f"{kind}{len(names)}"
        num, dyn, seed = int(g.integers(1, 3)), bool(g.random() < 0.25), int(g.integers(10 ** 6))
        pos, src = np.round(g.uniform(-1, 1, (num, 3)), 2), pick(SOURCES)
        names.append(name)
        state["num"][name] = num

        def do(w):
            ar, tr = V.mod("aspsim.array"), V.mod("aspsim.room.trajectory")
            p = pos.copy()
            w.held[name, "pos"] = p
            if dyn:
                w.held[name, "traj"] = arg = tr.LinearTrajectory([pos[0].tolist(), (-pos[0]).tolist()], 0.05, 1000) if num == 1 else tr.Trajectory(lambda t, q=pos: q + 0.01 * t)
            else:
                arg = p
            if kind == "f":
                w.held[name, "source"] = w.source(src, num, seed)
                w.held[name] = ar.FreeSourceArray(name, arg, w.held[name, "source"])
            else:
                w.held[name] = (ar.ControllableSourceArray if kind == "c" else ar.MicArray)(name, arg)
            w.setup.add_array(w.held[name])
        return what, do
    if what == "path" and srcs and mics:
        s, m = pick(srcs), pick(mics)
        h = np.round(g.normal(size=(state["num"][s], state["num"][m], int(g.integers(1, 5)))), 2)

        def do(w):
            w.held[s, m, "path"] = h.copy()
            w.setup.set_path(s, m, w.held[s, m, "path"])
        return what, do
    if what == "type" and srcs and mics:
        s, m = pick(srcs), pick(mics)
        t = pick(["none", "ism", "direct"] if state["num"][s] == state["num"][m] else ["none", "ism"])
        return what, lambda w: w.setup.arrays.set_path_types({s: {m: t}})
    if what == "config":
        key, v = pick([("tot_samples", 5), ("tot_samples", 11), ("c", 300.0), ("max_room_ir_length", 9), ("reverb", "ism"), ("reverb", "none"), ("room_size", [4.0, 4.0, 4.5]), ("room_center", [0.1, 0.0, 0.0]),
                       ("array_update_freq", 2), ("extra_delay", 2), ("start_sources_before_0", True), ("save_source_contributions", True), ("sim_buffer", 9)])
        import copy
        return what, lambda w: setattr(w.setup.sim_info, key, copy.deepcopy(v))
    if what == "mutate config":
        i, d = int(g.integers(3)), float(pick([0.1, -0.1, 0.25]))
        key = pick(["room_size", "room_center"])

        def do(w):
            getattr(w.setup.sim_info, key)[i] += d
        return what, do
    if what == "draw" and srcs:
        s, n = pick(srcs), int(g.integers(1, 6))
        return what, lambda w: w.held[s, "source"].get_samples(n) if (s, "source") in w.held else None
    if what == "mutate position" and names:
        n, d = pick(names), round(float(g.uniform(-0.2, 0.2)), 2)

        def do(w):
            w.held[n, "pos"][0, 0] += d
        return what, do
    if what == "mutate path" and srcs and mics:
        s, m = pick(srcs), pick(mics)

        def do(w):
            if (s, m, "path") in w.held:
                w.held[s, m, "path"][0, 0, 0] += 1.0
        return what, do
    if what == "move array" and names:
        n = pick(names)
        p = np.round(g.uniform(-1, 1, (state["num"][n], 3)), 2)

        def do(w):
            if not w.held[n].dynamic:
                if p[0, 0] > 0:
                    w.held[n].pos = p.copy()
                else:
                    w.held[n].pos[:] = p
                w.held[n].set_groups([[i] for i in range(len(p))])
        return what, do
    if what == "source" and [s for s in srcs if s[0] == "f"]:
        s, kind, seed = pick([s for s in srcs if s[0] == "f"]), pick(SOURCES), int(g.integers(10 ** 6))

        def do(w):
            w.held[s, "source"] = w.source(kind, state["num"][s], seed)
            w.setup.set_source(s, w.held[s, "source"])
        return what, do
    return what, None


def processor(V, sim, seed):
    from aspsim.processor import AudioProcessor
    np = V.np

    class Player(AudioProcessor):
        def __init__(self):
            super().__init__(sim.sim_info, sim.arrays, 2)
            self.name, self.g = "player", np.random.default_rng(seed)

        def process(self, num_samples):
            i = self.sig.idx
            for a in sim.arrays.sources():
                if a.name[0] == "c":
                    self.sig[a.name][:, i:i + num_samples] = self.g.normal(size=(a.num, num_samples))
    return Player()


def create(V, w):
    with sc.quiet():
        sim = w.setup.create_simulator()
    sim.add_processor(processor(V, sim, 3))
    return sim


def run(V, sim):
    with sc.quiet():
        sim.run_simulation()
    return {k: v.copy() for k, v in sim.sig.items()}


def snapshot(A):
    return {"names": list(A.arrays), "pos": {a.name: a.pos.copy() for a in A}, "paths": {s: {m: h.copy() for m, h in d.items()} for s, d in A.paths.items()},
            "types": {s: dict(d) for s, d in A.path_type.items()}, "groups": {a.name: repr(a.group_idxs) for a in A}}


def equal(np, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(np, a[k], b[k]) for k in a)
    if hasattr(a, "shape"):
        return np.array_equal(a, b)
    return a == b


@harness(functions=[SS + "create_simulator", "aspsim.array:ArrayCollection.setup_ir", "aspsim.array:ArrayCollection.set_default_path_type"], fuzz=400, prove=False, max_fuzz_s=100, deep=5)
def interleavings(V):
    np, ar = V.np, V.mod("aspsim.array")
    V.patch(ar.ArrayCollection, "plot", lambda *a, **k: None, both=True)
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    w = World(V)
    state = {"names": [], "num": {}}
    ops, sims, results = [], [], {}

    def reference(n):
        """a fresh setup with the first n changes made to it: what it contains, and the result of its only simulator"""
        r = World(V)
        for f in ops[:n]:
            f(r)
        sim = create(V, r)
        return snapshot(sim.arrays), run(V, sim)

    for k in range(V.int("steps", 4, 18)):
        what, f = operation(V, g, state, k)
        before = snapshot(w.setup.arrays)
        if f is not None:
            ops.append(f)
            f(w)
            continue
        if what == "create" and state["names"]:
            sim = create(V, w)
            sims.append((len(ops), sim, snapshot(sim.arrays)))
        elif what == "run":
            todo = [i for i in range(len(sims)) if i not in results]
            if todo:
                i = todo[int(g.integers(len(todo)))]
                V.ensure(equal(np, snapshot(sims[i][1].arrays), sims[i][2]), "a simulator keeps its arrays and paths whatever is done to its setup")
                results[i] = run(V, sims[i][1])
        elif what == "use simulator arrays" and sims:
            A = sims[int(g.integers(len(sims)))][1].arrays     # what is done to the arrays of a simulator that has run
            if [s[1].arrays for s in sims].index(A) in results:
                for a in A:
                    a.pos = a.pos + 1.0
        else:
            continue
        V.ensure(equal(np, snapshot(w.setup.arrays), before), "creating and running a simulator leaves the arrays, positions and paths of the setup as they were")
    if not state["names"]:
        return
    last = create(V, w), create(V, w)
    sims += [(len(ops), s, snapshot(s.arrays)) for s in last]
    for i, (n, sim, snap) in enumerate(sims):
        if i not in results:
            V.ensure(equal(np, snapshot(sim.arrays), snap), "a simulator keeps its arrays and paths whatever is done to its setup")
            results[i] = run(V, sim)
    refs = {}
    for i, (n, sim, snap) in enumerate(sims):
        if n not in refs:
            refs[n] = reference(n)
        V.ensure(equal(np, snap, refs[n][0]), "the arrays and paths of a simulator are those of the setup when it was created")
        V.ensure(equal(np, results[i], refs[n][1]), "a simulator gives the result of the only simulator of a setup in the state when it was created")
    V.ensure(equal(np, results[len(sims) - 1], results[len(sims) - 2]), "two simulators of one setup give the same result")
