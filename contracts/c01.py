"""C01: microphone signals are the sum of all sources filtered by their paths."""
from pyvc.harness import harness
from contracts import scene as sc

SIM = "aspsim.simulator"


def record_all(V, S):
    """a diagnostic-free recording: every value the signals had right after each sample was produced"""
    np = V.np
    T = S.si.tot_samples
    rec = {}
    sim = S.sim
    orig = sim.diag.save_data

    def save(proc, sig, idx, global_idx, last):
        for k, v in sig.items():
            if global_idx < T:
                rec.setdefault(k, {})[global_idx] = v[..., idx].copy()
            if global_idx == 0:
                rec.setdefault("before:" + k, v[..., :idx].copy())
        return orig(proc, sig, idx, global_idx, last)
    sim.diag.save_data = save
    return rec


@harness(functions=[SIM + ":Propagator.__init__", SIM + ":Propagator.prepare", SIM + ":Propagator.propagate", SIM + ":Signals.__init__", SIM + ":Simulator.run_simulation"],
         fuzz=120, prove=False, max_fuzz_s=60)
def simulation_is_sum_of_filtered_sources(V):
    """whole simulations: static arrays, user-supplied / direct / absent paths"""
    np = V.np
    S = sc.scene(V, proc=V.bool("with processor"))
    rec = record_all(V, S)
    sc.run(S)
    src, mic, contrib = sc.reference(V, S)
    pre, T = S.si.sim_buffer, S.si.tot_samples
    for n in range(T):
        for s in src:
            V.ensure_eq_t(rec[s][n], src[s][:, pre + n], "every source plays each of its samples once and in order", tol=1e-9)
        for m in mic:
            V.ensure_eq_t(rec[m][n], mic[m][:, pre + n], "the microphone signal is the sum of the filtered sources", tol=1e-9)
        if S.si.save_source_contributions:
            for c in contrib:
                V.ensure_eq_t(rec[c][n], contrib[c][:, pre + n], "the source contributions are the terms of the sum", tol=1e-9)
    for m in mic:
        V.ensure_eq_t(rec["before:" + m][:, -pre:], mic[m][:, :pre], "before time 0: zero before the first source sample, then the filtered sources", tol=1e-9)
    for s in src:
        V.ensure_eq_t(rec["before:" + s][:, -pre:], src[s][:, :pre], "before time 0: one source sample, or a full buffer", tol=1e-9)
    if S.si.save_source_contributions:
        for c in contrib:
            V.ensure_eq_t(rec["before:" + c][:, -pre:], contrib[c][:, :pre], "before time 0: contributions", tol=1e-9)
    for s in S.streams:
        V.ensure(S.streams[s].calls == [S.pre] + [1] * (len(S.streams[s].calls) - 1), "one free source sample per simulated sample")


PR = SIM + ":Propagator."
AR = "aspsim.array"


def small_world(V, kinds, nmics, si, dynamic=()):
    """arbitrary sources and microphones (any channel counts); every filter and source is replaced by its contract:
    source s gives X_s(channel, t) as its t-th sample; the filter of path (s, m) fed with X_s up to t gives Y_sm(mic, t)"""
    ar = V.mod(AR)
    A = ar.ArrayCollection()
    W = V.ghost()
    W.srcs, W.mics, W.num, W.X, W.Y, W.fed, W.asked = [], [], {}, {}, {}, {}, {}
    counts = {}

    for i, kind in enumerate(kinds):
        name = f"s{i}"
        num = V.int(f"channels {name}", 1, 3)
        pos = V.tensor(f"pos {name}", (num, 3))
        W.X[name] = V.fn(f"X{name}", 2)
        W.num[name] = num
        if kind == "free":
            class Src:
                metadata = {}

                def __init__(self, name, num):
                    self.name, self.num_channels = name, num
                    self.c = V.ghost(asked=0)

                def get_samples(self, n):
                    t = self.c.asked
                    self.c.asked = t + n
                    return V.fnarray((self.num_channels, n), lambda c, j: W.X[self.name](c, t + j))
            s = Src(name, num)
            W.asked[name] = s.c
            A.add_array(ar.FreeSourceArray(name, pos, s))
        else:
            A.add_array(ar.ControllableSourceArray(name, pos))
        W.srcs.append(name)
    for i in range(nmics):
        name = f"m{i}"
        num = V.int(f"channels {name}", 1, 3)
        W.num[name] = num
        A.add_array(ar.MicArray(name, V.tensor(f"pos {name}", (num, 3))))
        W.mics.append(name)
    for a, s in enumerate(W.srcs):
        for b_, m in enumerate(W.mics):
            tag = a * 10 + b_ + 1
            L = V.int(f"length {s} {m}", 1, 4)
            A.set_prop_path(V.fnarray((W.num[s], W.num[m], L), lambda i, o, j, t=tag: V.ite(V.and_(i == 0, o == 0, j == 0), t, 0)), s, m)
            W.Y[s, m] = V.fn(f"Y{s}{m}", 2)
            counts[s, m] = V.ghost(fed=0)
    W.counts = counts

    class Filter:
        def __init__(self, ir, sum_over_input, dynamic):
            V.ensure(sum_over_input, "the filter sums over the channels of the source")
            tag = V.at(ir, 0, 0, 0)
            self.pair = next(p for k, p in enumerate((s, m) for s in W.srcs for m in W.mics) if bool(tag == W.srcs.index(p[0]) * 10 + W.mics.index(p[1]) + 1))
            s, m = self.pair
            V.ensure(V.and_(V.shape(ir)[0] == W.num[s], V.shape(ir)[1] == W.num[m]), "the path of this source and microphone")
            V.ensure(dynamic == (s in W.dynamic or m in W.dynamic), "a path that changes uses the time-varying filter")

        def process(self, x):
            s, m = self.pair
            t = counts[s, m].fed
            n = V.shape(x)[1]
            V.ensure(V.shape(x)[0] == W.num[s], "all channels of the source are filtered")
            V.forall((W.num[s], n), lambda c, j: V.eq(V.at(x, c, j), W.X[s](c, t + j)), "the filter is fed with each sample of its own source, once and in order")
            counts[s, m].fed = t + n
            return V.fnarray((W.num[m], n), lambda o, j: W.Y[s, m](o, t + j))
    W.dynamic = list(dynamic)
    fc = V.mod(SIM).fc
    V.patch(fc, "create_filter", lambda ir=None, sum_over_input=False, dynamic=False, **kw: Filter(ir, sum_over_input, dynamic), both=True)
    return A, W


def wi(V, **kw):
    d = dict(sim_buffer=V.int("sim_buffer", 1), sim_chunk_size=V.int("sim_chunk_size", 1), tot_samples=V.int("tot_samples", 0),
             save_source_contributions=V.choice("contributions", [False, True]), start_sources_before_0=V.choice("start before 0", [False, True]))
    V.require_small(d["sim_buffer"], d["sim_chunk_size"])
    d.update(kw)
    return V.ghost(**d)


def propagation(V, kinds, nmics):
    si = wi(V)
    A, W = small_world(V, kinds, nmics, si)
    for s, kd in zip(W.srcs, kinds):
        if kd != "free":
            W.X[s] = lambda c, t: 0       # nothing is played before time 0
    b, N = si.sim_buffer, si.sim_buffer + si.sim_chunk_size
    sm = V.mod(SIM)
    sig = sm.Signals(si, A)
    prop = sm.Propagator(si, A, sig)
    prop.prepare()
    pre = b if si.start_sources_before_0 else 1
    V.ensure(sig.idx == b, "time 0 is right after the buffer")

    def at_pre(p, f):
        """value f(t) for the pre-zero sample at buffer position p"""
        return V.ite(V.and_(p >= b - pre, p < b), f(p - (b - pre)), 0)
    free = [s for s, k in zip(W.srcs, kinds) if k == "free"]
    V.ensure(True, "prepared")
    for s in W.srcs:
        V.forall((W.num[s], N), lambda c, p, s=s: V.eq(V.at(sig[s], c, p), at_pre(p, lambda t: W.X[s](c, t) if s in free else 0)), "sources before time 0: one sample or a full buffer, else zero")
    for s in W.srcs:
        for m in W.mics:
            V.ensure(W.counts[s, m].fed == pre, "every path is fed with the samples before time 0")
    for m in W.mics:
        V.forall((W.num[m], N), lambda o, p, m=m: V.eq(V.at(sig[m], o, p), at_pre(p, lambda t: sum(W.Y[s, m](o, t) for s in W.srcs))), "microphones before time 0: the sum of the filtered sources, zero before the first source sample")
        if si.save_source_contributions:
            for s in W.srcs:
                V.forall((W.num[m], N), lambda o, p, m=m, s=s: V.eq(V.at(sig[f"{s}~{m}"], o, p), at_pre(p, lambda t: W.Y[s, m](o, t))), "contributions before time 0")


def propagation_step(V, kinds, nmics):
    """one call of propagate in an arbitrary state: any buffer content, any index, any time"""
    si = wi(V)
    A, W = small_world(V, kinds, nmics, si)
    b, N = si.sim_buffer, si.sim_buffer + si.sim_chunk_size
    sm = V.mod(SIM)
    sig = sm.Signals(si, A)
    prop = sm.Propagator(si, A, sig)
    k = V.int("samples", 1, 3)
    i = V.int("index", 0)
    V.assume(i + k <= N)
    t = V.int("time", 0, 50)
    old = {}
    for name in list(sig.keys()):
        sh = V.shape(sig[name])
        c = V.tensor("content " + name, sh)
        u = V.fnarray(sh, lambda ch, p, c=c, name=name: V.ite(V.and_(p >= i, p < i + k), W.X[name](ch, t + p - i) if name in W.X else 0, V.at(c, ch, p)))
        sig[name][:] = u
        old[name] = c
    sig.idx = i
    for s, g in W.asked.items():
        g.asked = t
    for g in W.counts.values():
        g.fed = t
    for s, kd in zip(W.srcs, kinds):
        if kd == "free":
            sig[s][:, i:i + k] = 0
    prop.propagate(k)
    V.ensure(sig.idx == i, "the index is moved by the main loop only")
    for s in W.srcs:
        V.forall((W.num[s], N), lambda c, p, s=s: V.eq(V.at(sig[s], c, p), V.ite(V.and_(p >= i, p < i + k), W.X[s](c, t + p - i), V.at(old[s], c, p))),
                 "the source plays its next samples, and nothing else of it changes")
        if s in W.asked:
            V.ensure(W.asked[s].asked == t + k, "one free source sample per simulated sample")
    for m in W.mics:
        V.forall((W.num[m], N), lambda o, p, m=m: V.eq(V.at(sig[m], o, p), V.ite(V.and_(p >= i, p < i + k), sum(W.Y[s, m](o, t + p - i) for s in W.srcs), V.at(old[m], o, p))),
                 "the microphone signal is the sum of all filtered sources, and nothing else of it changes")
        if si.save_source_contributions:
            for s in W.srcs:
                V.forall((W.num[m], N), lambda o, p, m=m, s=s: V.eq(V.at(sig[f"{s}~{m}"], o, p), V.ite(V.and_(p >= i, p < i + k), W.Y[s, m](o, t + p - i), V.at(old[f"{s}~{m}"], o, p))),
                         "the source contributions are the terms of the sum")
    for s in W.srcs:
        for m in W.mics:
            V.ensure(W.counts[s, m].fed == t + k, "every path is fed with every sample")


def mk(fn, kinds, nmics, fuzz=60):
    def f(V):
        fn(V, kinds, nmics)
    f.__name__ = fn.__name__ + "_" + "_".join(kinds) + f"_{nmics}mic"
    return harness(functions=[PR + "__init__", PR + "prepare", PR + "propagate", SIM + ":Signals.__init__", SIM + ":Signals.create_signal", AR + ":ArrayCollection.add_array",
                              AR + ":ArrayCollection.iter_paths", AR + ":ArrayCollection.mic_src_combos", AR + ":ArrayCollection.free_sources", AR + ":ArrayCollection.set_prop_path"], fuzz=fuzz,
                   bounded=f"{len(kinds)} source arrays and {nmics} microphone arrays (any channel counts, signals, indices, buffer and chunk sizes)",
                   assumptions=["aspcore filters: process() continues the convolution with the impulse response it was created with over successive calls (checked by the whole-simulation runs)"])(f)


HARNESSES = [mk(fn, k, n) for fn in (propagation, propagation_step) for k, n in ((["free"], 1), (["ctrl", "free"], 2), (["free", "ctrl", "free"], 1))]
