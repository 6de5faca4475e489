"""C15: a stored session is reused only for an identical acoustic setup."""
from pyvc.harness import harness
from contracts import scene as sc

SL = "aspsim.saveloadsession:"
CONFIG = {"samplerate": [1000, 1001, 500], "c": [343.0, 343.5, 300.0], "room_size": [[5.0, 5.0, 5.0], [5.0, 5.0, 5.5], [6.0, 5.0, 5.0]],
          "room_center": [[0.0, 0.0, 0.0], [0.1, 0.0, 0.0], [0.0, 0.0, -0.2]], "rt60": [0.0, 0.3, 0.31], "max_room_ir_length": [12, 13, 9],
          "extra_delay": [1, 2, 3], "highpass_cutoff": [0.0, 20.0, 30.0], "randomized_ism": [False, True]}
FREE = {"tot_samples": [20, 40], "sim_buffer": [30, 31], "sim_chunk_size": [50, 20], "start_sources_before_0": [False, True], "save_source_contributions": [False, True],
        "array_update_freq": [1, 2], "export_frequency": [10, 20], "output_smoothing": [1, 2]}
ISM_ONLY = ("room_size", "room_center", "rt60", "extra_delay", "randomized_ism")


def spec(V, g):
    """a random acoustic setup, as plain data"""
    np = V.np
    s = {"config": {k: v[0] for k, v in CONFIG.items()}, "free": {k: v[0] for k, v in FREE.items()}, "arrays": {}, "paths": {}, "types": {}}
    s["config"]["rt60"] = 0.0
    for i in range(V.int("sources", 1, 2)):
        s["arrays"][f"s{i}"] = {"kind": V.choice(f"s{i} kind", ["free", "ctrl"])}
    for i in range(V.int("microphones", 1, 2)):
        s["arrays"][f"m{i}"] = {"kind": "mic"}
    for n, a in s["arrays"].items():
        num = int(g.integers(1, 3))
        a["pos"] = g.uniform(-1, 1, (num, 3))
        a["moves"] = V.bool(f"{n} moves") and V.bool(f"{n} moves really")
        a["dir"] = None
        if n[0] == "m" and V.bool(f"{n} directional"):
            v = g.normal(size=(num, 3))
            a["dir"] = ([["cardioid", "omni", "bidirectional"][int(i)] for i in g.integers(0, 3, num)], v / np.linalg.norm(v, axis=-1, keepdims=True))
    s["reverb"] = V.choice("reverb", ["none", "random", "ism"]) if not any(a["dir"] for a in s["arrays"].values()) else V.choice("reverb", ["none", "random"])
    for a in [n for n in s["arrays"] if n[0] == "s"]:
        for b in [n for n in s["arrays"] if n[0] == "m"]:
            how = V.choice(f"{a} {b}", ["default", "user", "random", "ism", "none"])
            if how == "user":
                s["paths"][a, b] = g.normal(size=(len(s["arrays"][a]["pos"]), len(s["arrays"][b]["pos"]), int(g.integers(1, 5))))
            elif how != "default" and not (how == "ism" and s["arrays"][b]["dir"]):
                s["types"][a, b] = how
    return s


def types(s):
    """the propagation type of every pair"""
    out = {}
    for a, x in s["arrays"].items():
        for b, y in s["arrays"].items():
            if x["kind"] != "mic" and y["kind"] == "mic":
                out[a, b] = "user" if (a, b) in s["paths"] else s["types"].get((a, b), s["reverb"])
    return out


def change(V, g, s, k):
    """changes one thing in s that influences the impulse responses; returns its name, or None when it does not apply"""
    np = V.np
    A = s["arrays"]
    names = list(A)
    n = names[int(g.integers(len(names)))]
    what = V.choice(f"changed{k}", ["nothing", "free", "config", "config", "config", "config", "position", "position a little", "order of points", "number of channels", "name", "new array",
                                   "kind", "direction", "moves", "type", "user path", "user path a little", "user path length", "user path to type", "type to user path", "reverb"])
    pairs = list(types(s))
    p = pairs[int(g.integers(len(pairs)))]
    if what == "free":
        key = list(FREE)[int(g.integers(len(FREE)))]
        s["free"][key] = FREE[key][1] if s["free"][key] == FREE[key][0] else FREE[key][0]
        return "nothing"
    if what == "config":
        key = V.choice(f"key{k}", list(CONFIG))
        if key in ISM_ONLY and "ism" not in types(s).values():
            return None
        left = [v for v in CONFIG[key] if v != s["config"][key]]
        s["config"][key] = left[int(g.integers(len(left)))]
        return key
    if what in ("position", "position a little", "order of points"):
        q = A[n]["pos"].copy()
        if what == "position":
            q[int(g.integers(len(q))), int(g.integers(3))] += 0.1
        elif what == "position a little":
            i, j = int(g.integers(len(q))), int(g.integers(3))
            q[i, j] = q[i, j] * (1 + 1e-9)
        else:
            q = q[::-1].copy()
        if np.array_equal(q, A[n]["pos"]):
            return None
        A[n]["pos"] = q
        return what
    if what == "number of channels":
        if any(n in p for p in s["paths"]) or A[n]["dir"]:
            return None
        A[n]["pos"] = np.concatenate((A[n]["pos"], g.uniform(-1, 1, (1, 3))))
        return what
    if what == "name":
        s["arrays"] = {(x + "x" if x == n else x): a for x, a in A.items()}
        s["paths"] = {tuple(x + "x" if x == n else x for x in p): h for p, h in s["paths"].items()}
        s["types"] = {tuple(x + "x" if x == n else x for x in p): h for p, h in s["types"].items()}
        return what
    if what == "new array":
        A["m9" if V.bool(f"mic{k}") else "s9"] = {"kind": "mic" if V.bool(f"mic{k}") else "ctrl", "pos": g.uniform(-1, 1, (1, 3)), "moves": False, "dir": None}
        return what if not (s["reverb"] == "ism" and any(a["dir"] for a in A.values())) else None
    if what == "kind":
        if A[n]["kind"] == "mic":
            return None
        A[n]["kind"] = "ctrl" if A[n]["kind"] == "free" else "free"
        return what
    if what == "direction":
        if A[n]["kind"] != "mic" or any(t == "ism" for (a, b), t in types(s).items() if b == n):
            return None
        num = len(A[n]["pos"])
        if A[n]["dir"] is None:
            A[n]["dir"] = (["cardioid"] * num, np.tile([[1.0, 0.0, 0.0]], (num, 1)))
        elif V.bool(f"direction{k}"):
            A[n]["dir"] = (A[n]["dir"][0], -A[n]["dir"][1])
        else:
            t = list(A[n]["dir"][0])
            t[0] = "supercardioid"
            A[n]["dir"] = (t, A[n]["dir"][1])
        return what
    if what == "moves":
        A[n]["moves"] = not A[n]["moves"]
        return what
    if what in ("user path", "user path a little", "user path length", "user path to type"):
        if not s["paths"]:
            return None
        p = list(s["paths"])[int(g.integers(len(s["paths"])))]
        h = s["paths"][p].copy()
        if what == "user path":
            h[..., int(g.integers(h.shape[2]))] += 0.5
        elif what == "user path a little":
            h.flat[int(g.integers(h.size))] *= 1 + 1e-12
        elif what == "user path length":
            h = np.concatenate((h, np.zeros(h.shape[:2] + (1,))), axis=-1)
        else:
            if A[p[1]]["dir"]:
                return None
            del s["paths"][p]
            s["types"][p] = "random"
            return what
        if h.shape == s["paths"][p].shape and np.array_equal(h, s["paths"][p]):
            return None
        s["paths"][p] = h
        return what
    if what == "type to user path":
        if p in s["paths"]:
            return None
        s["paths"][p] = g.normal(size=(len(A[p[0]]["pos"]), len(A[p[1]]["pos"]), 3))
        s["types"].pop(p, None)
        return what
    if what == "type":
        t = types(s)[p]
        if t == "user" or A[p[1]]["dir"]:
            return None
        s["types"][p] = [x for x in ("none", "random", "ism") if x != t][int(g.integers(2))]
        return what
    if what == "reverb":
        before = types(s)
        s["reverb"] = [x for x in ("none", "random") if x != s["reverb"]][0]
        return what if types(s) != before else None
    return "nothing"


def build(V, s, sessions, fig=None):
    np, ar, sm, tr = V.np, V.mod("aspsim.array"), V.mod("aspsim.simulator"), V.mod("aspsim.room.trajectory")
    si = sc.info(V, 20, 30, 50, **s["free"], **s["config"])
    si.reverb, si.auto_save_load = s["reverb"], True
    setup = sm.SimulatorSetup(fig, sessions, None, np.random.default_rng(0))
    setup.sim_info = si
    for n, a in s["arrays"].items():
        num = len(a["pos"])
        pos = tr.Trajectory(lambda t, p=a["pos"].copy(): p + 0.01 * t) if a["moves"] else a["pos"].copy()
        kw = {} if a["dir"] is None else {"directivity_type": list(a["dir"][0]), "directivity_dir": a["dir"][1].copy()}
        if a["kind"] == "mic":
            setup.add_mics(n, pos, **kw)
        elif a["kind"] == "free":
            setup.add_free_source(n, pos, sc.Stream(np.ones((num, 500))))
        else:
            setup.add_controllable_source(n, pos)
    for (a, b), t in s["types"].items():
        setup.arrays.set_path_types({a: {b: t}})
    for (a, b), h in s["paths"].items():
        setup.set_path(a, b, h.copy())
    return setup


def simulator(V, s, sessions):
    """(simulator, number of session folders it added)"""
    before = len(list(sessions.iterdir()))
    with sc.quiet():
        sim = build(V, s, sessions).create_simulator()
    return sim, len(list(sessions.iterdir())) - before


def paths(sim):
    return {(a.name, b.name): h.copy() for a, b, h in sim.arrays.iter_paths()}


def same(np, p, q):
    return p.keys() == q.keys() and all(np.array_equal(p[k], q[k]) for k in p)


@harness(functions=[SL + "load_session", SL + "save_session", SL + "search_for_matching_session", "aspsim.configutil:equal_audio", "aspsim.array:prototype_equals", "aspsim.simulator:SimulatorSetup.create_simulator"],
         fuzz=1200, prove=False, max_fuzz_s=100, deep=5)
def sessions(V):
    import copy
    np, ar = V.np, V.mod("aspsim.array")
    V.patch(ar.ArrayCollection, "plot", lambda *a, **k: None, both=True)
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    base = spec(V, g)
    stored = []           # (spec, paths) of every stored session
    with sc.scratch() as d:
        sim, new = simulator(V, base, d)
        V.ensure(new == 1, "the first setup is stored")
        stored.append((copy.deepcopy(base), paths(sim)))
        for k in range(V.int("further setups", 1, 3)):
            s = copy.deepcopy(stored[V.choice(f"starting from{k}", [0, -1])][0])
            what = change(V, g, s, k)
            if what is None:
                continue
            back = V.bool(f"back to the first{k}") and k > 0
            if back:
                s, what = copy.deepcopy(stored[0][0]), "nothing"
                for key in s["free"]:
                    s["free"][key] = FREE[key][int(g.integers(2))]
            sim, new = simulator(V, s, d)
            P = paths(sim)
            equal = [q for t, q in stored if identical(np, t, s)]
            maybe = [q for t, q in stored if identical(np, t, s, strict=False)]
            if maybe and not equal and new:
                stored.append((copy.deepcopy(s), P))
            elif maybe:
                V.ensure(new == 0, "a stored session of an identical acoustic setup is reused")
                equal = maybe
                V.ensure(any(same(np, P, q) for q in equal), "a simulation with a loaded session has the paths of that session")
            else:
                V.ensure(new == 1, "a session is not reused when something that influences the impulse responses differs", what)
                V.ensure(not any("random" in types(s).values() and same(np, P, q) for _, q in stored), "new paths are computed for another setup")
                fresh = build(V, s, None)
                with sc.quiet():
                    F = paths(fresh.create_simulator())
                for p, t in types(s).items():
                    if t == "user":
                        V.ensure(np.array_equal(P[p], s["paths"][p]), "a path set by the user is used")
                    elif t != "random" and not (t == "ism" and s["config"]["randomized_ism"]):
                        V.ensure_eq_t(P[p], F[p], "the paths of a new session are those of the chosen setup", tol=1e-12)
                stored.append((copy.deepcopy(s), P))
            # the simulation itself is the chosen one, loaded or not
            A, si = sim.arrays, sim.sim_info
            V.ensure([a.name for a in A] == list(s["arrays"]), "the arrays are those of the chosen setup")
            for n, a in s["arrays"].items():
                V.ensure(np.array_equal(A[n].pos, a["pos"]) and A[n].dynamic == a["moves"], "positions and movement are those of the chosen setup")
            for key, v in {**s["free"], **s["config"], "reverb": s["reverb"]}.items():
                V.ensure(getattr(si, key) == v, "the configuration is the chosen one", key)
            for p, h in P.items():
                V.ensure((p in s["paths"]) == (A.path_type[p[0]][p[1]] == "modified"), "what is set by the user stays marked")


def identical(np, a, b, strict=True):
    """the same acoustic setup; not strict: differing at most in configuration values that influence no impulse response"""
    if list(a["arrays"]) != list(b["arrays"]) or types(a) != types(b):
        return False
    if a["reverb"] != b["reverb"] and strict:
        return False
    used = set(types(a).values())
    for k in CONFIG:
        if a["config"][k] != b["config"][k]:
            if k in ISM_ONLY and "ism" not in used:
                continue
            matters = {"c": {"ism"}, "samplerate": {"ism"} if not a["config"]["highpass_cutoff"] else {"ism", "random"}, "max_room_ir_length": {"ism", "random"}, "highpass_cutoff": {"ism", "random"}}.get(k, {"ism"})
            if strict or matters & used:
                return False
    for n in a["arrays"]:
        x, y = a["arrays"][n], b["arrays"][n]
        if x["kind"] != y["kind"] or x["moves"] != y["moves"] or not np.array_equal(x["pos"], y["pos"]) or (x["dir"] is None) != (y["dir"] is None):
            return False
        if x["dir"] is not None and (list(x["dir"][0]) != list(y["dir"][0]) or not np.array_equal(x["dir"][1], y["dir"][1])):
            return False
    return a["paths"].keys() == b["paths"].keys() and all(np.array_equal(h, b["paths"][p]) for p, h in a["paths"].items())


@harness(functions=[SL + "load_from_path", "aspsim.simulator:SimulatorSetup.load_from_path"], fuzz=30, prove=False, max_fuzz_s=30)
def from_path(V):
    """a chosen session is loaded from its folder"""
    np, ar = V.np, V.mod("aspsim.array")
    V.patch(ar.ArrayCollection, "plot", lambda *a, **k: None, both=True)
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    s = spec(V, g)
    for a in s["arrays"].values():
        a["moves"] = False
    with sc.scratch() as d, sc.scratch() as fig:
        sim, new = simulator(V, s, d)
        P = paths(sim)
        folder = next(d.iterdir())
        setup = V.mod("aspsim.simulator").SimulatorSetup(fig if V.bool("figures") else None, None, None, np.random.default_rng(0))
        with sc.quiet():
            setup.load_from_path(folder)
            other = setup.create_simulator()
        V.ensure(same(np, paths(other), P), "a simulation of a loaded session has its paths")
        for key, v in {**s["free"], **s["config"], "reverb": s["reverb"]}.items():
            V.ensure(getattr(other.sim_info, key) == v, "a loaded session has its configuration", key)
        V.ensure([a.name for a in other.arrays] == list(s["arrays"]) and all(np.array_equal(other.arrays[n].pos, a["pos"]) for n, a in s["arrays"].items()), "a loaded session has its arrays")
