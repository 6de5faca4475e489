"""C17: result folders are unique; cleanup removes only outdated exports of the same diagnostic."""
from pyvc.harness import harness
from contracts import scene as sc

FU = "aspsim.fileutilities"
PL = "aspsim.diagnostics.plot"
PARTS = ["mic", "m", "mic_1", "mic_2_", "ic", "mic.x", "mic_3.x", "1", "mic10", "Mic", "x_mic", "mic_", "a b"]
SUFFIX = [".npz", ".json", ".pdf", ".wav", ".png", ""]


def names(V, tag, n):
    return [V.choice(f"{tag} name{i}", PARTS) for i in range(n)]


@harness(functions=[FU + ":get_unique_folder_name", FU + ":get_multiple_unique_folder_names"], fuzz=150, prove=False)
def unique_folders(V):
    fu = V.mod(FU)
    V.patch(fu, "get_time_string", lambda detailed=False: "2020_01_01_00_00" + ("_01_5" if detailed else ""), both=True)
    prefix = V.choice("prefix", ["figs_", "session_", "s", "a_b_", "session_x0_"])
    detailed = V.bool("detailed")
    base = prefix + fu.get_time_string(detailed)
    with sc.scratch() as d:
        there = set()
        for i in range(V.int("entries", 0, 14)):
            k = V.int(f"number{i}", 0, 14)
            nm = V.choice(f"kind{i}", [base + "_{}", prefix + "_{}", base + "_{}.x", base + "{}", "x" + base + "_{}"]).format(k)
            if nm not in there:
                there.add(nm)
                if V.bool(f"folder{i}"):
                    (d / nm).mkdir()
                else:
                    (d / nm).touch()
        before = sorted(there)
        for _ in range(3):
            p = fu.get_unique_folder_name(prefix, d, detailed)
            V.ensure(not p.exists() and p.name not in there, "a new folder name is not taken", f"{p.name} among {sorted(there)}")
            V.ensure(p.parent == d, "the new folder is in the parent folder")
            V.ensure(p.name.startswith(base), "named after prefix and time")
            V.ensure(sorted(x.name for x in d.iterdir()) == sorted(there), "choosing a name creates and removes nothing")
            p.mkdir()
            there.add(p.name)
        if not detailed:
            n = V.int("several", 1, 6)
            ps = fu.get_multiple_unique_folder_names(prefix, d, n)
            V.ensure(len(ps) == n and len({p.name for p in ps}) == n, "as many different names as asked for")
            V.ensure(all(not p.exists() and p.parent == d for p in ps), "none of several new names is taken", f"{[p.name for p in ps]} among {sorted(there)}")


def fill(V, d, tag="file"):
    """files name_index.suffix of several diagnostics, and other entries"""
    put = {}
    for i in range(V.int("files", 0, 14)):
        nm = V.choice(f"{tag}{i}", PARTS)
        idx = V.int(f"{tag}{i} index", 0, 40)
        sf = V.choice(f"{tag}{i} suffix", SUFFIX[:5])
        put[f"{nm}_{idx}{sf}"] = (nm, idx, sf)
    for i in range(V.int("others", 0, 4)):
        put[V.choice(f"other{i}", ["mic_x.npz", "mic.npz", "mic_.npz", "mic_5x.npz", "mic_x5.npz", "mic_\u00b2.npz", "x.npz", "mic_-3.npz", "mic_1.5.npz"])] = None
    for f in put:
        (d / f).write_text(f)
    return put


class Obj:
    def __init__(self, np, keep):
        self.keep_only_last_export = keep
        self.np = np

    def get_processed_output(self, idx, pp):
        return self.np.arange(3.0), self.np.arange(3)


@harness(functions=[PL + ":savenpz", FU + ":find_all_earlier_files"], fuzz=200, prove=False)
def replaced_exports(V):
    pl = V.mod(PL)
    keep = V.bool("keep only last")
    with sc.scratch() as d:
        put = fill(V, d)
        name = V.choice("diagnostic", PARTS)
        idx = V.int("index", 0, 40)
        V.assume(all(v is None or v[0] != name or v[1] <= idx for v in put.values()))
        pl.savenpz(name, {name: Obj(V.np, keep)}, idx, d, [])
        now = {x.name for x in d.iterdir()}
        new = f"{name}_{idx}.npz"
        V.ensure(new in now, "the export is there")
        with V.np.load(d / new) as z:
            V.ensure(list(z) == [name] and bool(V.np.all(z[name] == V.np.arange(3.0))), "with its data")
        for f, v in put.items():
            if f == new:
                continue
            old = keep and v is not None and v[0] == name and v[1] < idx and v[2] == ".npz"
            V.ensure((f in now) == (not old), "an earlier export of the diagnostic is removed" if old else "other files stay", f"{f} when {new} is exported")
            if f in now:
                V.ensure((d / f).read_text() == f, "unchanged")
        V.ensure(now <= set(put) | {new}, "nothing else is made")


@harness(functions=[FU + ":find_all_earlier_files"], fuzz=250, prove=False)
def earlier_files(V):
    fu = V.mod(FU)
    with sc.scratch() as d:
        put = fill(V, d)
        name = V.choice("diagnostic", PARTS)
        idx = V.int("index", 0, 40)
        later = any(v is not None and v[0] == name and v[1] > idx for v in put.values())
        incl = V.bool("name includes index")
        error = V.bool("error if later")
        args = (d, f"{name}_{idx}" if incl else name, idx, incl, error)
        if error and later:
            V.ensure(V.raises(lambda: fu.find_all_earlier_files(*args), (ValueError,)) is not None, "later exports are reported when asked for")
        else:
            got = sorted(f.name for f in fu.find_all_earlier_files(*args))
            want = sorted(f for f, v in put.items() if v is not None and v[0] == name and v[1] < idx)
            V.ensure(got == want, "exactly the earlier exports of this diagnostic", f"{got} vs {want}")
        V.ensure({x.name for x in d.iterdir()} == set(put), "finding files changes nothing")


@harness(functions=[PL + ":delete_earlier_tikz_plot", FU + ":find_index_in_name"], fuzz=200, prove=False)
def tikz_folders(V):
    pl = V.mod(PL)
    with sc.scratch() as d:
        put = fill(V, d)
        folders = {}
        for i in range(V.int("folders", 0, 6)):
            nm, k = V.choice(f"folder{i}", PARTS), V.int(f"folder{i} index", 0, 40)
            f = f"{nm}_{k}"
            if f in folders or f in put:
                continue
            folders[f] = (nm, k)
            (d / f).mkdir()
            for sfx in (".tex", ".pdf", "-000.tsv"):
                (d / f / (f + sfx)).write_text(f + sfx)
        name = V.choice("diagnostic", PARTS)
        idx = V.int("index", 0, 40)
        V.assume(all(v is None or v[0] != name or v[1] <= idx for v in put.values()))
        V.assume(all(v[0] != name or v[1] <= idx for v in folders.values()))
        V.assume(all(not (f"{f}.pdf" in put) for f in folders))
        pl.delete_earlier_tikz_plot(d, f"{name}_{idx}")
        for f in put:
            V.ensure((d / f).is_file() and (d / f).read_text() == f, "plot and data files stay", f)
        for f, v in folders.items():
            if v[0] == name and v[1] < idx:
                V.ensure(not (d / f).exists(), "an earlier plot folder of the same diagnostic is removed")
                V.ensure((d / f"{f}.pdf").is_file(), "its figure is kept")
            else:
                V.ensure((d / f).is_dir() and sorted(x.name for x in (d / f).iterdir()) == sorted(f + s for s in (".tex", ".pdf", "-000.tsv")), "other plot folders stay", f"{f} when {name}_{idx} is plotted")
