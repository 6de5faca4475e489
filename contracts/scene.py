"""Random simulations for the bounded (real code) harnesses, with an independent reference for what they must give."""
import contextlib
import io
import shutil
import tempfile
from pathlib import Path


class Stream:
    """a free source that plays a known stream and notes how it is asked"""
    def __init__(self, data):
        self.data, self.pos, self.calls = data, 0, []
        self.num_channels = data.shape[0]
        self.metadata = {"type": "Stream"}

    def get_samples(self, n):
        self.calls.append(n)
        out = self.data[:, self.pos:self.pos + n].copy()
        self.pos += n
        return out

    def reset(self):
        self.pos = 0


def info(V, tot=None, buf=None, chunk=None, **kw):
    from aspsim import configutil
    si = configutil.load_default_config()
    si.tot_samples = V.int("tot_samples", 1, 50) if tot is None else tot
    si.sim_buffer = V.int("sim_buffer", 4, 30) if buf is None else buf
    si.sim_chunk_size = V.int("sim_chunk_size", 1, 40) if chunk is None else chunk
    si.reverb = "none"
    si.plot_output = "none"
    si.auto_save_load = False
    for k, v in kw.items():
        setattr(si, k, v)
    return si


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="scene_"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Scene:
    pass


def scene(V, tag="", blocks=True, free=None, ctrl=None, mics=None, si=None, proc=True, direct=True, contributions=None, silent=True, spare=0):
    """a setup with user-supplied, direct and absent paths; returns everything needed to state what must happen"""
    from aspsim import array as ar, simulator as sm, processor as pr
    np = V.np
    S = Scene()
    S.B = (V.choice(f"{tag}block size", [1, 1, 2, 3, 4, 5, 7]) if blocks else 1) if proc else None
    if si is None:
        buf = V.int(f"{tag}sim_buffer", max(4, (S.B or 1) + spare), 24)
        B = S.B or 1
        chunk = V.choice(f"{tag}chunk", [B, B, B + 1, 2 * B, 2 * B + 1, 11, 16, 40])
        V.assume(chunk >= B)
        si = info(V, buf=buf, chunk=chunk, start_sources_before_0=V.bool(f"{tag}start before 0"),
                  save_source_contributions=V.bool(f"{tag}contributions") if contributions is None else contributions)
    S.si = si
    S.nfree = V.int(f"{tag}free sources", 0, 2) if free is None else free
    S.nctrl = (V.int(f"{tag}controllable sources", 0, 2) if ctrl is None else ctrl)
    S.nmic = V.int(f"{tag}mic arrays", 1, 2) if mics is None else mics
    V.assume(S.nfree + S.nctrl > 0)
    setup = sm.SimulatorSetup(None, None, None, np.random.default_rng(0))
    setup.sim_info = si
    S.src, S.mic, S.streams, S.paths = {}, {}, {}, {}
    g = np.random.default_rng(V.int(f"{tag}content", 0, 10 ** 6))
    order = [("free", f"f{i}") for i in range(S.nfree)] + [("ctrl", f"c{i}") for i in range(S.nctrl)] + [("mic", f"m{i}") for i in range(S.nmic)]
    order = [order[i] for i in g.permutation(len(order))]
    S.pre = si.sim_buffer if si.start_sources_before_0 else 1
    for kind, name in order:
        num = int(g.integers(1, 4))
        pos = g.normal(size=(num, 3))
        if kind == "free":
            st = Stream(np.round(g.normal(size=(num, S.pre + si.tot_samples + (S.B or si.sim_buffer) + 60)), 3))
            S.streams[name] = st
            setup.add_free_source(name, pos, st)
            S.src[name] = num
        elif kind == "ctrl":
            setup.add_controllable_source(name, pos)
            S.src[name] = num
        else:
            setup.add_mics(name, pos)
            S.mic[name] = num
    types = {}
    for s, ns in S.src.items():
        for m, nm in S.mic.items():
            u = g.random()
            if u < 0.7:
                L = int(g.integers(1, 9))
                h = np.round(g.normal(size=(ns, nm, L)), 3)
                if direct or not s.startswith("c"):
                    pass
                setup.set_path(s, m, h)
                S.paths[s, m] = h
            elif u < 0.85 and ns == nm:
                types.setdefault(s, {})[m] = "direct"
                S.paths[s, m] = np.eye(ns)[:, :, None]
            else:
                S.paths[s, m] = np.zeros((ns, nm, 1))
    setup.arrays.set_path_types(types)
    V.patch(ar.ArrayCollection, "plot", lambda *a, **k: None, both=True)
    S.setup = setup
    with quiet():
        S.sim = setup.create_simulator()
    S.si = S.sim.sim_info
    S.streams = {n: S.sim.arrays[n].source for n in S.streams}
    S.proc = None
    if proc:
        S.proc = probe(V, S, g)
        S.sim.add_processor(S.proc)
    return S


def probe(V, S, g, state=None):
    from aspsim.processor import AudioProcessor
    np = V.np

    class Probe(AudioProcessor):
        def __init__(self):
            super().__init__(S.si, S.sim.arrays, S.B)
            self.name = "probe"
            self.calls = []
            self.count = 0
            self.state = {}

        def process(self, num_samples):
            i = self.sig.idx
            seen = {k: v[..., :].copy() for k, v in self.sig.items()}
            self.calls.append(dict(n=S.sim.n_tot, idx=i, num=num_samples, seen=seen, wrote={}))
            for k in S.src:
                if k.startswith("c"):
                    w = np.round(g.normal(size=(S.src[k], num_samples)), 3)
                    self.sig[k][:, i:i + num_samples] = w
                    self.calls[-1]["wrote"][k] = w
            self.count += 1
            if state is not None:
                state(self)
    return Probe()


def run(S):
    with quiet():
        S.sim.run_simulation()
    return S


def reference(V, S, upto=None):
    """source and microphone signals by global index; column pre+n is sample n"""
    np = V.np
    upto = S.si.tot_samples if upto is None else upto
    pre = S.si.sim_buffer
    T = pre + upto
    src = {}
    for s, num in S.src.items():
        x = np.zeros((num, T))
        if s.startswith("f"):
            data = S.streams[s].data
            x[:, pre - S.pre:] = data[:, :S.pre + upto]
        else:
            for c in (S.proc.calls if S.proc else []):
                w = c["wrote"].get(s)
                if w is not None:
                    n = c["n"]
                    k = max(0, min(w.shape[1], upto - n))
                    x[:, pre + n:pre + n + k] = w[:, :k]
        src[s] = x
    contrib, mic = {}, {m: np.zeros((n, T)) for m, n in S.mic.items()}
    for (s, m), h in S.paths.items():
        y = np.zeros((h.shape[1], T))
        for k in range(min(h.shape[2], T)):
            y[:, k:] += h[:, :, k].T @ src[s][:, :T - k]
        contrib[f"{s}~{m}"] = y
        mic[m] = mic[m] + y
    return src, mic, contrib
