"""Whole simulations with several diagnostics; what each export must contain is computed from the reference signals and
from copies of the processor state taken when it had it (bounded harnesses, real code only)."""
import copy
from contracts import scene as sc


def intervals(V, name, T):
    """None (all samples) or increasing disjoint intervals inside [0, T]"""
    u = V.choice(f"{name} save", ["all", "one", "some", "touching ends"])
    if u == "all":
        return None, [(0, T)]
    if u == "touching ends":
        a = V.int(f"{name} a", 0, T - 1)
        return [(a, T)], [(a, T)]
    out, t = [], 0
    for i in range(1 if u == "one" else 3):
        a = t + V.int(f"{name} gap{i}", 0 if not out else 1, 12)
        b = a + V.int(f"{name} len{i}", 1, 14)
        if b > T:
            break
        out.append((a, b))
        t = b
    V.assume(len(out) > 0)
    return out, out


def exports(V, name, T):
    """argument and list of export indices that are reached"""
    if V.choice(f"{name} export", ["frequency", "list"]) == "frequency":
        f = V.int(f"{name} frequency", 1, 60)
        return f, list(range(f, T + 1, f))
    out, t = [], 0
    for i in range(V.int(f"{name} exports", 1, 4)):
        t += V.int(f"{name} step{i}", 1, 25)
        if not T < t <= T + 8:          # the simulation goes on for one block after the last sample
            out.append(t)
    V.assume(out)
    return out, [e for e in out if e <= T]


def build(V, kinds, ndiag, **kw):
    """scene with ndiag diagnostics of the given kinds; every diagnostic is a dict with its reference"""
    from aspsim.diagnostics import diagnostics as dg, core, diagnosticscollection as dc
    np = V.np
    steps = []

    def state(p):
        g = np.random.default_rng(p.count)
        p.s = float(g.normal())
        p.vec = g.normal(size=3)
        p.mat = p.mat if hasattr(p, "mat") else np.zeros((2, 3))
        p.mat[:] = g.normal(size=(2, 3))          # changed in place
        p.box.d["k"][1] = p.vec * 2
        p.box.filt.ir = g.normal(size=(1, 2, 4))
    S = sc.scene(V, spare=1, **kw)
    S.si.plot_output = "pdf"
    S.si.export_frequency = V.int("export_frequency", 1, 60)
    if S.proc:
        class Box:
            pass
        p = sc.probe(V, S, np.random.default_rng(3), state)
        p.box, p.box_list = Box(), [1]
        p.box.d = {"k": [0, np.zeros(3)]}
        p.box.filt = Box()
        p.box.filt.ir = np.zeros((1, 2, 4))
        p.s, p.vec, p.mat = 0.0, np.zeros(3), np.zeros((2, 3))
        S.proc = p
        S.sim.processors = [p]
    T = S.si.tot_samples
    S.diags = {}
    names = list(S.src) + list(S.mic)
    for i in range(ndiag):
        kind = V.choice(f"diag{i}", kinds)
        nm = ["d", "da", "d_1", "mic", "ad"][i]
        D = dict(kind=kind, name=nm, log=[])
        kwa = {}
        if kind in ("signal", "channels", "power", "ratio"):
            iv, ref = intervals(V, nm, T)
            ex, exp = exports(V, nm, T)
            if iv is not None:
                kwa["save_at"] = core.IntervalCounter(V.choice(f"{nm} given as", [tuple, list, np.array])(iv))
            sig = names[V.int(f"{nm} signal", 0, len(names) - 1)]
            D.update(sig=sig, iv=ref, exports=exp)
            num = (S.src.get(sig) or S.mic.get(sig))
            if kind == "signal":
                D["obj"] = dg.RecordSignal(sig, S.si, export_at=ex, num_channels=num, export_func="npz", **kwa)
                D["ch"] = list(range(num))
            elif kind == "channels":
                D["ch"] = [num - 1] if V.bool(f"{nm} one channel") else list(range(num))[::-1]
                D["obj"] = dg.RecordSignal(sig, S.si, export_at=ex, num_channels=len(D["ch"]), channel_idx=D["ch"][0] if len(D["ch"]) == 1 else D["ch"], export_func="npz", **kwa)
            elif kind == "power":
                D["ch"] = list(range(num)) if V.bool(f"{nm} all") else [0]
                D["obj"] = dg.SignalPower(sig, S.si, export_at=ex, sig_channels=slice(None) if len(D["ch"]) == num else slice(0, 1), export_func="npz", **kwa)
            else:
                D["den"] = names[V.int(f"{nm} denominator", 0, len(names) - 1)]
                D["obj"] = dg.SignalPowerRatio(sig, D["den"], S.si, export_at=ex, export_func="npz", **kwa)
        elif kind in ("state", "statevec", "stateitem", "statemat", "statepower", "compare", "summary"):
            f = V.int(f"{nm} save frequency", 1, 30)
            ex, exp = exports(V, nm, T)
            D.update(times=list(range(f, T + 1, f)), exports=exp)
            V.assume(f <= T)
            kwa = dict(export_at=ex, save_frequency=f, export_func="npz")
            if kind == "state":
                D["get"], D["obj"] = (lambda p: p.s), dg.RecordState("s", 1, S.si, **kwa)
            elif kind == "statevec":
                D["get"], D["obj"] = (lambda p: p.vec), dg.RecordState("vec", 3, S.si, **kwa)
            elif kind == "stateitem":
                D["get"], D["obj"] = (lambda p: p.box.d["k"][1]), dg.RecordState("box.d['k'][1]", 3, S.si, **kwa)
            elif kind == "statemat":
                D["get"], D["obj"] = (lambda p: p.mat), dg.RecordState("mat", (2, 3), S.si, **kwa)
            elif kind == "statepower":
                D["get"], D["obj"] = (lambda p: np.mean(np.abs(p.vec) ** 2)), dg.StatePower("vec", S.si, **kwa)
            elif kind == "compare":
                D["get"], D["obj"] = (lambda p: np.sum(p.vec) - p.s), dg.StateComparison(lambda a, b: np.sum(a) - b, "vec", "s", S.si, **kwa)
            else:
                D["get"], D["obj"] = (lambda p: np.max(p.mat)), dg.StateSummary(lambda a: np.max(a), "mat", S.si, **kwa)
        elif kind in ("filter", "filterdiff"):
            if V.bool(f"{nm} list"):
                ex, exp = exports(V, nm, T)
            else:
                ex, exp = None, list(range(S.si.export_frequency, T + 1, S.si.export_frequency))
            D.update(exports=exp, times=exp)
            if kind == "filter":
                D["get"], D["obj"] = (lambda p: p.box.filt.ir), dg.RecordFilter("box.filt.ir", S.si, save_at=ex, export_func="npz")
            else:
                D["get"], D["obj"] = (lambda p: p.mat - p.box.filt.ir[0, 0, 1]), dg.RecordFilterDifference("mat", "box.scalar", S.si, save_at=ex, export_func="npz")
        elif kind in ("summary_sig", "spectrum"):
            a = V.int(f"{nm} start", 0, T - 1)
            b = V.int(f"{nm} end", a + 1, T)
            sig = names[V.int(f"{nm} signal", 0, len(names) - 1)]
            D.update(sig=sig, range=(a, b), exports=[b])
            if kind == "summary_sig":
                fn = V.choice(f"{nm} function", [None, "abs"])
                D["fn"] = fn
                D["obj"] = dc.SignalSummary(sig, S.si, (a, b), summary_func=None if fn is None else (lambda x: np.sum(np.abs(x))))
                D["text"] = True
            else:
                raise ValueError
        S.diags[nm] = D
        S.sim.diag.add_diagnostic(nm, D["obj"])

        def wrap(D=D):
            def exp(name, dct, idx, fldr, pp, orig=D["obj"].export_function[0], **k):
                D["log"].append((S.sim.n_tot, name, idx))
                return orig(name, dct, idx, fldr, pp, **k)
            return [exp]
        D["obj"].export_function = wrap()
    # states as they are when each sample has been produced
    S.states = {}
    if S.proc:
        p = S.proc
        orig = S.sim.diag.save_data

        def save(proc, sig, idx, gi, last):
            p.box.scalar = p.box.filt.ir[0, 0, 1]
            for D in S.diags.values():
                if "get" in D and gi in D["times"]:
                    S.states[D["name"], gi] = copy.deepcopy(D["get"](p))
            return orig(proc, sig, idx, gi, last)
        S.sim.diag.save_data = save
    return S


def expected(V, S, D, e, sigs):
    np = V.np
    pre = S.si.sim_buffer - 1     # time index t is the sample step t-1 produces; index 0 is the last one before the first step
    k = D["kind"]
    if "iv" in D:
        t = np.array([t for a, b in D["iv"] for t in range(a, b) if t < e], dtype=int)
        x = sigs[D["sig"]][:, pre:]
        if k in ("signal", "channels"):
            return x[D["ch"]][:, t], t
        if k == "power":
            return np.mean(np.abs(x[D["ch"]]) ** 2, axis=0)[None, t], t
        if k == "ratio":
            y = sigs[D["den"]][:, pre:]
            L = S.si.output_smoothing
            h = np.ones(L) / L

            def smooth(z):
                out = np.zeros(z.shape[-1])
                for a, b in D["iv"]:
                    out[a:b] = np.convolve(np.mean(np.abs(z[:, a:b]) ** 2, axis=0), h)[:b - a]
                return out
            with np.errstate(all="ignore"):
                return (smooth(x) / smooth(y))[None, t], t
    if k in ("filter", "filterdiff"):
        return S.states[D["name"], e], None
    if k in ("summary_sig",):
        a, b = D["range"]
        x = sigs[D["sig"]][:, pre + a:pre + b]
        return (np.sum(x) if D["fn"] is None else np.sum(np.abs(x))) / (b - a), None
    t = [t - 1 for t in D["times"] if t - 1 < e]
    if not t:
        return None, None
    v = [np.asarray(S.states[D["name"], q + 1], dtype=float) for q in t]
    return np.stack(v, axis=-1), np.array(t)
