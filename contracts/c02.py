"""C02: the simulated sound field does not depend on the chunk size."""
from pyvc.harness import harness
from contracts import scene as sc
from contracts.c01 import record_all

SIM = "aspsim.simulator"


@harness(functions=[SIM + ":Simulator.run_simulation", SIM + ":Signals._reset_signals", SIM + ":Simulator.last_block_on_buffer"], fuzz=70, prove=False, max_fuzz_s=60)
def chunk_size_independence(V):
    """the same scene with two chunk sizes: same values at the same global indices, for diagnostics and processors"""
    np = V.np
    res = []
    chunk2 = None
    for k in range(2):
        V1 = type(V)(values=V.drawn if k else V.values, rnd=V.rnd) if k else V
        S = sc.scene(V1, proc=V1.bool("with processor"))
        if k == 0:
            chunk2 = V.choice("second chunk", [S.B or 1, (S.B or 1) + 1, 2 * (S.B or 1), 13, 17, 64])
            V.assume(chunk2 >= (S.B or 1))
        else:
            S.si.sim_chunk_size = chunk2
            S.proc = sc.probe(V, S, np.random.default_rng(5)) if S.proc else None
            S.sim.processors = [S.proc] if S.proc else []
        if k == 0 and S.proc:
            S.proc = sc.probe(V, S, np.random.default_rng(5))
            S.sim.processors = [S.proc]
        rec = record_all(V, S)
        sc.run(S)
        res.append((S, rec))
    (S1, r1), (S2, r2) = res
    for k in r1:
        if k.startswith("before:"):
            continue
        V.ensure(set(r1[k]) == set(r2[k]) == set(range(S1.si.tot_samples)), "every sample is offered to the diagnostics once")
        for n in r1[k]:
            V.ensure_eq_t(r2[k][n], r1[k][n], "same values at the same global index", tol=1e-9)
    if S1.proc:
        V.ensure([c["n"] for c in S1.proc.calls] == [c["n"] for c in S2.proc.calls], "same calls of the processor")
        for a, b in zip(S1.proc.calls, S2.proc.calls):
            h = min(a["idx"], b["idx"])
            V.ensure(h >= S1.si.sim_buffer - S1.B + 1, "at least the last buffer length less one block of history is there")
            for k in a["seen"]:
                V.ensure_eq_t(b["seen"][k][..., b["idx"] - h:b["idx"]], a["seen"][k][..., a["idx"] - h:a["idx"]], "same history at the same global index", tol=1e-9)
                V.ensure(not np.any(a["seen"][k][..., a["idx"]:]) and not np.any(b["seen"][k][..., b["idx"]:]), "samples not yet produced are zero")


def sim_info(V, **kw):
    """the fields of a configuration the simulator core reads"""
    d = dict(sim_buffer=V.int("sim_buffer", 1), sim_chunk_size=V.int("sim_chunk_size", 1), tot_samples=V.int("tot_samples", 0), save_source_contributions=False,
             start_sources_before_0=False)
    d.update(kw)
    return V.ghost(**d)


@harness(functions=[SIM + ":Signals._reset_signals", SIM + ":Signals.create_signal", SIM + ":Signals.__getitem__"], fuzz=100)
def reset_keeps_everything(V):
    """moving to the next chunk: for every signal (any number of dimensions used here), every buffer content and index"""
    si = sim_info(V)
    b, c = si.sim_buffer, si.sim_chunk_size
    V.require_small(b, c)
    S = V.mod(SIM).Signals(si, V.mklist([]))
    kinds = [("mic", (V.int("mics", 1, 3),)), ("matrix", (V.int("rows", 1, 3), V.int("cols", 1, 3)))]
    old = {}
    for name, dim in kinds:
        S.create_signal(name, dim if len(dim) > 1 else dim[0])
        V.ensure(V.and_(*[x == y for x, y in zip(V.shape(S[name]), dim + (b + c,))]), "a new signal has room for the buffer and a chunk")
        V.forall(V.shape(S[name]), lambda *i, n=name: V.eq(V.at(S[n], *i), 0), "a new signal is zero")
        t = V.tensor("content " + name, dim + (b + c,))
        S[name][:] = t
        old[name] = t
    idx = V.int("idx", 0)
    V.assume(idx <= b + c)
    S.idx = idx
    S._reset_signals()
    V.ensure(S.idx == idx - c, "the current index moves back by one chunk")
    for name, dim in kinds:
        new = S[name]
        V.ensure(V.and_(*[x == y for x, y in zip(V.shape(new), dim + (b + c,))]), "the same shape")
        # position relative to the current index: local p before is local p - c after
        V.forall(dim + (b,), lambda *i, n=name: V.eq(V.at(S[n], *i), V.at(old[n], *i[:-1], i[-1] + c)), "every kept sample keeps its value and its position relative to the current index")
        V.forall(dim + (c,), lambda *i, n=name: V.eq(V.at(S[n], *i[:-1], i[-1] + b), 0), "samples not yet produced are zero")
    V.ensure(V.len(list(S.keys())) == 2, "no signal is lost")
