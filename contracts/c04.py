"""C04: diagnostics hold exactly the samples they were asked for, unaltered."""
from pyvc.harness import harness
from contracts import scene as sc, diagscene as ds

CO = "aspsim.diagnostics.core"
DG = "aspsim.diagnostics.diagnostics"


def check_content(V, S, D, files, sigs):
    np = V.np
    for e in D["exports"]:
        if D.get("text"):
            f = f"{D['name']}_{e}.json"
        else:
            f = f"{D['name']}_{e}.npz"
        V.ensure(f in files, "an export file for every requested index", f"{f} not among {sorted(files)}")
        got = files[f]
        want, t = ds.expected(V, S, D, e, sigs)
        if want is None:
            V.ensure(np.size(got) == 0, "no data from before the first save")
            continue
        want = np.asarray(want, dtype=float)
        if t is not None and want.ndim and want.shape[-1] == len(t):
            want = np.atleast_2d(want)
            keep = ~np.isnan(want).any(axis=tuple(range(want.ndim - 1)))
            want = want[..., keep]
        V.ensure_eq_t(got, want, "exported data: the value at every covered index before the export index, nothing else", tol=1e-9)
        if t is not None and want.size:
            out, times = D["obj"].get_processed_output(e, [])
            V.ensure_eq_t(times, np.asarray(t)[keep], "labelled with its time indices")
    tot = D["obj"].get_output()
    if "iv" in D and D["kind"] in ("signal", "channels", "power"):
        T = S.si.tot_samples
        cov = np.zeros(T, bool)
        for a, b in D["iv"]:
            cov[a:b] = True
        V.ensure(bool(np.all(np.isnan(np.atleast_2d(tot)[:, ~cov]))), "no data at other time indices")


def load(V, d):
    import json
    np = V.np
    out = {}
    for f in d.iterdir():
        if f.suffix == ".npz":
            with np.load(f) as z:
                keys = list(z.keys())
                V.ensure(len(keys) == 1, "one array per diagnostic")
                out[f.name] = z[keys[0]]
        elif f.suffix == ".json" and not f.name.startswith("metadata"):
            out[f.name] = list(json.load(open(f)).values())[0]
        elif not f.name.startswith("metadata"):
            out[f.name] = None
    return out


def simulate(V, kinds, ndiag, check, **kw):
    S = ds.build(V, kinds, ndiag, contributions=False, **kw)
    T = S.si.tot_samples
    with sc.scratch() as d:
        S.sim.folder_path = d
        sc.run(S)
        files = load(V, d)
    src, mic, _ = sc.reference(V, S)
    check(S, files, {**src, **mic})
    return S


@harness(functions=[CO + ":Logger.save_data", CO + ":IntervalCounter", CO + ":get_values_up_to_idx", DG + ":RecordSignal.save"], fuzz=120, prove=False, max_fuzz_s=80)
def signal_recordings(V):
    def check(S, files, sigs):
        for D in S.diags.values():
            check_content(V, S, D, files, sigs)
    simulate(V, ["signal", "channels"], V.int("diagnostics", 1, 4), check, proc=V.bool("with processor"))


@harness(functions=[CO + ":Logger.save_data", DG + ":RecordFilter.save", CO + ":Logger.export_single_diag"], fuzz=80, prove=False, max_fuzz_s=80)
def mixed_recordings(V):
    def check(S, files, sigs):
        for D in S.diags.values():
            check_content(V, S, D, files, sigs)
    simulate(V, ["signal", "filter", "filterdiff", "statevec"], V.int("diagnostics", 2, 5), check)
