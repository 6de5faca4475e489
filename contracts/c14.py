"""C14: user-supplied paths win, the others follow the chosen types."""
from pyvc.harness import harness
from contracts import scene as sc

AC = "aspsim.array:ArrayCollection."
SS = "aspsim.simulator:SimulatorSetup."
TYPES = ["none", "direct", "random", "ism"]


def kind(np, h, ism):
    if h.shape[0] == h.shape[1] and h.shape[2] == 1 and np.array_equal(h[..., 0], np.eye(h.shape[0])):
        return "direct"
    if not h.any():
        return "none"
    if h.shape == ism.shape and np.allclose(h, ism, atol=1e-12):
        return "ism"
    return "random"


@harness(functions=[AC + n for n in ("set_prop_path", "set_prop_paths", "set_path_types", "set_default_path_type", "setup_ir", "add_array")] + [SS + "set_path", SS + "add_arrays", SS + "create_simulator"],
         fuzz=250, prove=False, max_fuzz_s=60)
def histories(V):
    """a random history of setup calls, then one or two simulators"""
    np, ar, sm, tr, rir = V.np, V.mod("aspsim.array"), V.mod("aspsim.simulator"), V.mod("aspsim.room.trajectory"), V.mod("aspsim.room.roomimpulseresponse")
    V.patch(ar.ArrayCollection, "plot", lambda *a, **k: None, both=True)
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    si = sc.info(V, V.int("tot_samples", 1, 4), 6, 8, rt60=0.0, extra_delay=1, max_room_ir_length=V.int("max_room_ir_length", 12, 20), samplerate=1000, room_size=[5.0, 5.0, 5.0], room_center=[0.0, 0.0, 0.0])
    setup = sm.SimulatorSetup(None, None, None, np.random.default_rng(0))
    setup.sim_info = si
    user, types, info = {}, {}, {}
    equal = V.bool("all arrays of equal size")

    def make(target, name, i):
        num = 2 if equal else V.choice(f"{name} channels", [1, 2, 3, 0])
        pos = g.uniform(-1, 1, (num, 3))
        dyn = num > 0 and V.bool(f"{name} moves")
        p = tr.Trajectory(lambda t, pos=pos: pos + 0.01 * t) if dyn else pos
        info[name] = (num, dyn)
        if name[0] == "m":
            target.add_array(ar.MicArray(name, p))
        elif name[0] == "c":
            target.add_array(ar.ControllableSourceArray(name, p))
        else:
            target.add_array(ar.FreeSourceArray(name, p, sc.Stream(np.ones((num, 400)))))

    def pairs(names):
        return [(s, m) for s in names if s[0] != "m" for m in names if m[0] == "m"]

    def allowed(s, m):
        return [t for t in TYPES if t != "direct" or info[s][0] == info[m][0]]

    def change(target, names, what, k):
        """one call on the collection or setup `target` about some pair of its arrays"""
        col = getattr(target, "arrays", None) if isinstance(target, sm.SimulatorSetup) else target
        pp = pairs(names)
        if not pp:
            return
        s, m = pp[int(g.integers(len(pp)))]
        if what in ("path", "paths"):
            h = g.normal(size=(info[s][0], info[m][0], int(g.integers(1, 6))))
            if what == "paths":
                col.set_prop_paths({s: {m: h}})
            elif isinstance(target, sm.SimulatorSetup):
                target.set_path(s, m, h)
            else:
                col.set_prop_path(h, s, m)
            user[s, m] = h.copy()
        elif what == "types":
            d = {}
            for _ in range(int(g.integers(1, 4))):
                s, m = pp[int(g.integers(len(pp)))]
                t = allowed(s, m)[int(g.integers(len(allowed(s, m))))]
                d.setdefault(s, {})[m] = t
            col.set_path_types(d)
            for s in d:
                for m, t in d[s].items():
                    types[s, m] = t
    todo = {"f": V.int("free", 0, 2), "c": V.int("controllable", 0, 2), "m": V.int("mics", 0, 3)}
    names, sims, k = [], [], 0
    steps = V.int("steps", 2, 16)
    for k in range(steps):
        what = V.choice(f"step{k}", ["array", "array", "path", "types", "collection", "paths", "create", "types"])
        left = [t for t in todo if todo[t]]
        if what == "array" and left:
            t = left[int(g.integers(len(left)))]
            todo[t] -= 1
            names.append(f"{t}{todo[t]}")
            make(setup, names[-1], k)
        elif what == "collection" and left:
            other, on = ar.ArrayCollection(), []
            for j in range(int(g.integers(1, 4))):
                left = [t for t in todo if todo[t]]
                if left:
                    t = left[int(g.integers(len(left)))]
                    todo[t] -= 1
                    on.append(f"{t}{todo[t]}")
                    make(other, on[-1], k)
            for j in range(int(g.integers(0, 4))):
                change(other, on, ["path", "types", "paths"][int(g.integers(3))], k)
            setup.add_arrays(other)
            names += on
        elif what == "create" and names:
            sims.append(create(V, setup, info, user, types, names, allowed, k, sims))
        else:
            change(setup, names, what, k)
    if names:
        create(V, setup, info, user, types, names, allowed, steps, sims)


def create(V, setup, info, user, types, names, allowed, k, sims):
    np, ar, rir = V.np, V.mod("aspsim.array"), V.mod("aspsim.room.roomimpulseresponse")
    src = [n for n in names if n[0] != "m"]
    mics = [n for n in names if n[0] == "m"]
    fine = [t for t in TYPES if all(t in allowed(s, m) or (s, m) in user or (s, m) in types or 0 in (info[s][0], info[m][0]) for s in src for m in mics)]
    default = V.choice(f"default type{k}", fine)
    setup.sim_info.reverb = default
    with sc.quiet():
        sim = setup.create_simulator()
    A = sim.arrays
    what = {(s, m): ("user" if (s, m) in user else types.get((s, m), default)) for s in src for m in mics}

    def check(A, when):
        V.ensure({s: set(d) for s, d in A.paths.items()} == {s: set(mics) for s in src}, "one path for every source and microphone array and no others" + when)
        for (s, m), t in what.items():
            h = A.paths[s][m]
            ns, nm = info[s][0], info[m][0]
            V.ensure(h.ndim == 3 and h.shape[:2] == (ns, nm), "a path connects every channel of the source with every channel of the microphone array" + when)
            if t == "user":     # a path without channels holds no values
                V.ensure(np.array_equal(h, user[s, m]) or not ns * nm, "a path set by the user is used unchanged" + when)
            elif ns and nm:
                if t in ("ism", "random"):
                    with sc.quiet():
                        ism = A.path_generator.create_path(A[s], A[m], "ism", sim.sim_info)
                else:
                    ism = np.zeros((0, 0, 0))
                V.ensure(kind(np, h, ism) == t or (t == "none" and not h.any()), ("the type set for a pair is used" if (s, m) in types else "the default type is used for a pair without a type") + when, f"{s} {m}: {kind(np, h, ism)} instead of {t}")
    check(A, "")
    if V.bool(f"run{k}"):
        first = {key: A.paths[key[0]][key[1]].copy() for key in what}
        with sc.quiet():
            sim.run_simulation()
        check(A, " [after a simulation]")
        for (s, m), h in first.items():
            if not info[s][1] and not info[m][1]:
                V.ensure(np.array_equal(A.paths[s][m], h), "paths between arrays that do not move stay during a simulation")
    return sim


@harness(functions=[AC + "set_prop_path", AC + "add_array"], fuzz=100, prove=False)
def rejected(V):
    """calls that name other arrays, or give a path that does not fit"""
    np, ar = V.np, V.mod("aspsim.array")
    g = np.random.default_rng(V.int("content", 0, 10 ** 6))
    A = ar.ArrayCollection()
    ns, nm = V.int("sources", 1, 3), V.int("microphones", 1, 3)
    A.add_array(ar.ControllableSourceArray("s", g.normal(size=(ns, 3))))
    A.add_array(ar.MicArray("m", g.normal(size=(nm, 3))))
    h = g.normal(size=(ns, nm, 3))
    if V.bool("set before"):
        A.set_prop_path(h, "s", "m")
    before = (dict(A.paths["s"]), dict(A.path_type["s"]), list(A.paths), list(A.path_type))
    bad = V.choice("what", ["src name", "mic name", "swapped", "shape0", "shape1", "2d", "list", "type src", "type mic", "type swapped", "duplicate"])
    calls = {"src name": lambda: A.set_prop_path(h, "x", "m"), "mic name": lambda: A.set_prop_path(h, "s", "x"), "swapped": lambda: A.set_prop_path(g.normal(size=(nm, ns, 3)), "m", "s"),
             "shape0": lambda: A.set_prop_path(g.normal(size=(ns + 1, nm, 3)), "s", "m"), "shape1": lambda: A.set_prop_path(g.normal(size=(ns, nm + 1, 3)), "s", "m"),
             "2d": lambda: A.set_prop_path(h[..., 0], "s", "m"), "list": lambda: A.set_prop_path(h.tolist(), "s", "m"), "type src": lambda: A.set_path_types({"x": {"m": "ism"}}),
             "type mic": lambda: A.set_path_types({"s": {"x": "ism"}}), "type swapped": lambda: A.set_path_types({"m": {"s": "ism"}}),
             "duplicate": lambda: A.add_array(ar.MicArray(V.choice("which", ["s", "m"]), g.normal(size=(2, 3))))}
    V.ensure(V.raises(calls[bad]) is not None, "a path or type that does not belong to a source and a microphone array is rejected")
    V.ensure((dict(A.paths["s"]), dict(A.path_type["s"]), list(A.paths), list(A.path_type)) == before and A.names_src == ["s"] and A.names_mic == ["m"], "a rejected call changes nothing")
