"""C12: moving arrays: impulse responses always belong to the current positions."""
from pyvc.harness import harness
from contracts import scene as sc

AC = "aspsim.array:ArrayCollection."
PR = "aspsim.simulator:Propagator."


def trajectory(V, tag, num, tr, fs):
    np = V.np
    kind = V.choice(f"{tag} trajectory", ["function", "linear", "circular"]) if num == 1 else "function"
    if kind == "linear":
        k = V.int(f"{tag} points", 2, 4)
        return tr.LinearTrajectory([list(p) for p in np.round(np.random.default_rng(V.int(f"{tag} seed", 0, 10 ** 6)).uniform(-1, 1, (k, 3)), 2)], V.choice(f"{tag} time", [0.01, 0.02, 0.1]), fs)
    if kind == "circular":
        return tr.CircularTrajectory((0.3, 0.9), (0, 0, 0), 20.0, 40.0, fs)
    g = np.random.default_rng(V.int(f"{tag} seed", 0, 10 ** 6))
    a, b, w = g.uniform(-0.8, 0.8, (num, 3)), g.uniform(-0.3, 0.3, (num, 3)), g.uniform(0.05, 1, (num, 1))
    return tr.Trajectory(lambda t, a=a, b=b, w=w: a + b * np.sin(w * t))


def moving(V, reverb):
    np = V.np
    ar, sm, tr = V.mod("aspsim.array"), V.mod("aspsim.simulator"), V.mod("aspsim.room.trajectory")
    f = V.choice("array_update_freq", [1, 1, 2, 3, 5, 8])
    si = sc.info(V, V.int("tot_samples", 1, 24), V.int("sim_buffer", 4, 12), V.int("sim_chunk_size", 3, 20), reverb=reverb, rt60=0.0, array_update_freq=f, max_room_ir_length=V.int("max_room_ir_length", 3, 30),
                 start_sources_before_0=V.bool("start before 0"), samplerate=1000, room_size=[5.0, 5.0, 5.0], room_center=[0.0, 0.0, 0.0], extra_delay=V.int("extra_delay", 1, 3))
    setup = sm.SimulatorSetup(None, None, None, np.random.default_rng(0))
    setup.sim_info = si
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    info, streams = {}, {}
    for kind, cnt in (("f", V.int("sources", 1, 2)), ("m", V.int("microphones", 1, 3))):
        for i in range(cnt):
            name = f"{kind}{i}"
            num = V.int(f"{name} channels", 1, 2)
            dyn = V.bool(f"{name} moves")
            pos = trajectory(V, name, num, tr, si.samplerate) if dyn else np.round(g.uniform(-1, 1, (num, 3)), 2)
            num = pos.current_pos(0).shape[0] if dyn else num
            info[name] = (num, pos, dyn)
            if kind == "f":
                st = sc.Stream(np.round(g.normal(size=(num, si.sim_buffer + si.tot_samples + 60)), 2))
                streams[name] = st
                setup.add_free_source(name, pos, st)
            else:
                setup.add_mics(name, pos)
    V.patch(ar.ArrayCollection, "plot", lambda *a, **k: None, both=True)
    srcs, mics = [n for n in info if n[0] == "f"], [n for n in info if n[0] == "m"]
    user = {}
    for s in srcs:
        for m in mics:
            if V.bool(f"{s} {m} set by the user") and V.bool(f"{s} {m} really"):
                user[s, m] = np.round(g.normal(size=(info[s][0], info[m][0], 5)), 2)
                setup.set_path(s, m, user[s, m])
    with sc.quiet():
        sim = setup.create_simulator()
    log = []
    orig = sm.Propagator.propagate

    def propagate(self, k):
        log.append(dict(n=sim.n_tot, k=k, pos={a.name: a.pos.copy() for a in sim.arrays}, paths={(s, m): sim.arrays.paths[s][m].copy() for s in srcs for m in mics}, idx=self.sig.idx))
        orig(self, k)
        log[-1]["mic"] = {m: self.sig[m][:, self.sig.idx:self.sig.idx + k].copy() for m in mics}
    V.patch(sm.Propagator, "propagate", propagate, both=True)
    streams = {n: sim.arrays[n].source for n in streams}
    start = {(s, m): sim.arrays.paths[s][m].copy() for s in srcs for m in mics}
    with sc.quiet():
        sim.run_simulation()
    V.ensure([e["n"] for e in log] == list(range(len(log))) and len(log) >= si.tot_samples and all(e["k"] == 1 for e in log), "every sample is propagated once")
    still = V.mod("aspsim.room.roomimpulseresponse")

    def where(name, n):
        num, pos, dyn = info[name]
        return pos.current_pos(n // f * f) if dyn else pos
    cache = {}

    def path(s, m, n):
        key = (s, m, n // f)
        if key not in cache:
            with sc.quiet():
                cache[key] = sim.arrays.path_generator.create_path(ar.ControllableSourceArray("s", where(s, n)), ar.MicArray("m", where(m, n)), reverb, sim.sim_info)
        return cache[key]
    pre = si.sim_buffer if si.start_sources_before_0 else 1
    for n, e in enumerate(log[:si.tot_samples]):
        for a in info:
            V.ensure_eq_t(e["pos"][a], where(a, n), "an array is where its trajectory was at the last update time" if info[a][2] else "an array without a trajectory does not move", tol=0)
        for (s, m), h in e["paths"].items():
            if (s, m) in user:
                V.ensure_eq_t(h, user[s, m], "a path set by the user is never recomputed", tol=0)
            elif info[s][2] or info[m][2]:
                V.ensure_eq_t(h, path(s, m, n), "the impulse responses belong to the current positions", tol=1e-9)
            else:
                V.ensure_eq_t(h, start[s, m], "paths between arrays that do not move stay unchanged", tol=0)
    for n, e in enumerate(log[:si.tot_samples]):
        for m in mics:
            want = np.zeros(info[m][0])
            for s in srcs:
                h = e["paths"][s, m]
                x = streams[s].data
                for k in range(min(h.shape[2], pre + n + 1)):
                    want = want + h[:, :, k].T @ x[:, pre + n - k]
            V.ensure_eq_t(e["mic"][m][:, 0], want, "the sample is propagated with the impulse responses of the current positions", tol=1e-9)


@harness(functions=[AC + "update", AC + "update_path", "aspsim.array:Array.update", PR + "propagate"], fuzz=40, prove=False, max_fuzz_s=60)
def moving_ism(V):
    moving(V, "ism")


@harness(functions=[AC + "update", AC + "update_path", "aspsim.array:Array.update"], fuzz=200, prove=False, max_fuzz_s=30)
def updates(V):
    """ArrayCollection.update alone, with paths that only name the positions they belong to"""
    np, ar, tr = V.np, V.mod("aspsim.array"), V.mod("aspsim.room.trajectory")
    f = V.int("array_update_freq", 1, 9)
    si = sc.info(V, 10, 10, 10, rt60=0.0, array_update_freq=f, reverb="ism")
    A = ar.ArrayCollection()
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    kinds = {}
    order = [(f"s{i}", "src") for i in range(V.int("sources", 0, 3))] + [(f"m{i}", "mic") for i in range(V.int("microphones", 0, 3))]
    V.assume(order)
    order = [order[i] for i in g.permutation(len(order))]
    pos = {}
    for name, k in order:
        n = int(g.integers(1, 3))
        p = g.normal(size=(n, 3))
        dyn = V.bool(f"{name} moves")
        pos[name] = (lambda t, p=p: p + 0.5 * t) if dyn else (lambda t, p=p: p)
        arg = tr.Trajectory(lambda t, p=p: p + 0.5 * t) if dyn else p
        A.add_array(ar.ControllableSourceArray(name, arg) if k == "src" else ar.MicArray(name, arg))
        kinds[name] = (k, dyn)
    made = []

    def create(self, src, mic, reverb, sim_info, info=False, verbose=False):
        made.append((src.name, mic.name))
        h = src.pos.sum(-1)[:, None, None] * 1.7 + mic.pos.sum(-1)[None, :, None] + np.arange(3) * len(reverb)
        return (h, {}) if info else h
    rir = V.mod("aspsim.room.roomimpulseresponse")
    V.patch(rir.PathGenerator, "create_path", create, both=True)
    user = {}
    for s, m in [(a, b) for a, (k, _) in kinds.items() if k == "src" for b, (q, _) in kinds.items() if q == "mic"]:
        if g.random() < 0.25:
            user[s, m] = g.normal(size=(A[s].num, A[m].num, 2))
            A.set_prop_path(user[s, m], s, m)
        elif g.random() < 0.3:
            A.set_path_types({s: {m: "none"}})
    A.set_default_path_type("ism")
    with sc.quiet():
        A.setup_ir(si)
    t = 0
    start = {(s.name, m.name): A.paths[s.name][m.name].copy() for s, m in A.mic_src_combos()}
    for _ in range(V.int("steps", 1, 12)):
        made.clear()
        before = {k: A.paths[k[0]][k[1]] for k in start}
        A.update(t)
        u = t // f * f
        if t % f:
            V.ensure(not made and all(A.paths[s][m] is h for (s, m), h in before.items()), "nothing changes between update times")
        for name, (k, dyn) in kinds.items():
            if dyn:
                V.ensure_eq_t(A[name].pos, pos[name](u), "follows the trajectory", tol=0)
        for (s, m) in start:
            h = A.paths[s][m]
            if (s, m) in user:
                V.ensure_eq_t(h, user[s, m], "user-supplied paths stay", tol=0)
            elif kinds[s][1] or kinds[m][1]:
                want = pos[s](u).sum(-1)[:, None, None] * 1.7 + pos[m](u).sum(-1)[None, :, None] + np.arange(3) * len(A.path_type[s][m])
                V.ensure_eq_t(h, want, "paths of moved arrays belong to the new positions of both arrays", tol=1e-12)
            else:
                V.ensure_eq_t(h, start[s, m], "other paths stay", tol=0)
        t += 1
