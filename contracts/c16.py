"""C16: a configuration survives saving and loading unchanged."""
from pyvc.harness import harness
from contracts import scene as sc

CU = "aspsim.configutil"
STR = ["pdf", "none", "show", "tikz", "svg", "no", "yes", "on", "null", "~", "1", "1.0", "1e3", "", " x ", "a: b", "- a", "#c", "[1]", "{a: 1}", "'", '"', "\u00e5\u00e4", "line\nbreak", "0x10", "1_000", "12:30", "*a", "&a", "!t", "%", "@"]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def number(V, name, cls):
    if cls is int:
        return V.choice(name + " as", [V.int(name), V.int(name) * 10 ** V.int(name + " power", 0, 18)])
    v = V.real(name)
    return V.choice(name + " as", [v, v * 10.0 ** V.int(name + " exponent", -300, 290), 1 / 3 * v, V.int(name + " int"), -0.0, float("inf"), 1e16, 1e-7, 5e-324, 123456789012345680.0, 0.1 + 0.2])


def any_info(V):
    import dataclasses as dc
    cu = V.mod(CU)
    dims = V.int("dims", 1, 4)
    d = {}
    for f in dc.fields(cu.SimulatorInfo):
        t = f.type if isinstance(f.type, str) else getattr(f.type, "__name__", str(f.type))
        if f.name == "spatial_dims":
            v = dims
        elif f.name == "reverb":
            v = V.choice("reverb", ["none", "direct", "random", "ism"])
        elif t.startswith("list"):
            v = [number(V, f"{f.name}{i}", float) for i in range(dims)]
        elif t == "bool":
            v = V.bool(f.name)
        elif t == "str":
            v = V.choice(f.name, STR)
        else:
            v = number(V, f.name, {"int": int}.get(t, float))
        d[f.name] = v
    if V.bool("shared list"):
        d["room_center"] = d["room_size"]
    return d


def compare(V, a, b, what):
    import dataclasses as dc
    for f in dc.fields(a):
        x, y = getattr(a, f.name), getattr(b, f.name)
        V.ensure(same(x, y), what, f"{f.name}: {x!r} vs {y!r}")
    V.ensure(set(vars(a)) == set(vars(b)), what + " [no other fields]")


@harness(functions=[CU + ":SimulatorInfo.save_to_file", CU + ":load_from_file"], fuzz=200, prove=False)
def roundtrip(V):
    cu = V.mod(CU)
    vals = any_info(V)
    how = V.choice("made by", ["constructor", "assignment"])
    if how == "constructor":
        info = cu.SimulatorInfo(**vals)
    else:
        info = cu.load_default_config()
        for k, v in vals.items():
            setattr(info, k, v)
    import copy
    before = copy.deepcopy(info)
    with sc.scratch() as d:
        for rnd in range(2):
            info.save_to_file(d)
            compare(V, before, info, "saving does not change the configuration")
            got = cu.load_from_file(d if V.bool(f"from folder{rnd}") else d / "config.yaml")
            compare(V, before, got, "the loaded configuration is the saved one")
            V.ensure([f.name for f in d.iterdir()] == ["config.yaml"], "one file")
            info = got
        other = cu.load_default_config()
        other.save_to_file(d)
        compare(V, other, cu.load_from_file(d), "a second configuration saved to the folder replaces the first")
    V.ensure(info.save_to_file(None) is None, "no folder: nothing is saved")


@harness(functions=[CU + ":load_default_config"], fuzz=5, prove=False)
def default_config(V):
    V.int("run", 0, 10 ** 6)
    cu = V.mod(CU)
    a = cu.load_default_config()
    b = cu.load_default_config()
    compare(V, a, b, "the default configuration can be loaded again")
    a.room_size[0] = -1
    compare(V, b, cu.load_default_config(), "loaded configurations are independent")
    with sc.scratch() as d:
        b.save_to_file(d)
        c = cu.load_from_file(d)
        compare(V, b, c, "the default configuration is a fixed point of saving and loading")
