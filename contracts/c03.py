"""C03: processors are called once per block, with exactly the past and the coming block."""
from pyvc.harness import harness
from contracts import scene as sc

SIM = "aspsim.simulator"


@harness(functions=[SIM + ":Simulator.run_simulation", SIM + ":Simulator._prepare_simulation", SIM + ":Propagator.propagate"], fuzz=120, prove=False, max_fuzz_s=60)
def processor_schedule(V):
    np = V.np
    S = sc.scene(V)
    sc.run(S)
    src, mic, contrib = sc.reference(V, S, S.si.tot_samples + S.B)
    calls, b, B = S.proc.calls, S.si.sim_buffer, S.B
    want = [n for n in range(S.si.tot_samples + B) if n % B == B - 1]
    V.ensure([c["n"] for c in calls] == want, "one call before every sample n with n mod B = B-1, and no other", f"{[c['n'] for c in calls]} instead of {want}")
    V.ensure(all(c["num"] == B for c in calls), "called with the block size as the number of samples")
    V.ensure(S.proc.count == len(calls), "every call")
    for c in calls:
        n, i = c["n"], c["idx"]
        hist = min(i, b + n)
        V.ensure(hist >= b - B + 1, "at least the last buffer length less one block of history is there")
        for m in mic:
            seen = c["seen"][m]
            V.ensure_eq_t(seen[:, i - hist:i], mic[m][:, b + n - hist:b + n], "all earlier microphone samples at their final value", tol=1e-9)
            V.ensure(not np.any(seen[:, i:]), "no later microphone sample exists")
        for s in src:
            V.ensure_eq_t(c["seen"][s][:, i - hist:i], src[s][:, b + n - hist:b + n], "sources: what was written is what was played", tol=1e-9)
            V.ensure(not np.any(c["seen"][s][:, i:]), "the block to be written is empty")
            V.ensure(c["seen"][s].shape[1] >= i + B, "there is room for the block to be written")


def core_info(V, **kw):
    d = dict(sim_buffer=V.int("sim_buffer", 1), sim_chunk_size=V.int("sim_chunk_size", 1), tot_samples=V.int("tot_samples", 0), save_source_contributions=False,
             start_sources_before_0=False, plot_output="none")
    d.update(kw)
    return V.ghost(**d)


def run_loop(V, with_proc):
    """the main loop, checked against the contracts of the things it calls: arrays, processor, propagator, diagnostics are
    arbitrary objects whose calls are checked; the buffer index and the chunk switch are the real Signals object"""
    sm = V.mod(SIM)
    si = core_info(V)
    b, c, T = si.sim_buffer, si.sim_chunk_size, si.tot_samples
    V.require_small(b, c, T)
    B = V.int("block size", 1, near=3) if with_proc else V.max(b // 4, 1)
    if with_proc:
        V.assume(B <= c)
        V.assume(B <= b)
    g = V.ghost(n=0, calls=0, K=0, reset=0)      # samples produced, processor calls, chunk switches

    class Arrays:
        def update(self, n):
            V.ensure(n == g.n, "arrays are updated for the sample that is produced next")

        def __iter__(self):
            return iter(())

    class Proc:
        block_size = B
        name = "p"
        metadata = {}

        def process(self, num):
            V.ensure(g.n % B == B - 1, "the processor is called only before samples n with n mod B = B-1")
            V.ensure(num == B, "with the block size as the number of samples")
            V.ensure(g.calls == g.n // B, "at most once per block")
            idx = sim.sig.idx
            V.ensure(idx + B <= b + c, "there is room for the block that is written")
            V.ensure(idx >= b - B + 1, "at least the last buffer length less one block of history is there")
            g.calls = g.calls + 1

    class Prop:
        def propagate(self, num):
            V.ensure(num == 1, "one sample at a time")
            V.ensure(g.calls == (g.n + 1) // B if with_proc else g.calls == 0, "the processor was called before every sample n with n mod B = B-1")
            V.ensure(sim.sig.idx == b + g.n - c * g.K, "the local index belongs to the global index")
            V.ensure(sim.sig.idx < b + c, "the sample fits in the buffer")
            g.n = g.n + 1

    class Diag:
        def save_data(self, proc, sig, idx, n, last):
            V.ensure(n == g.n - 1, "diagnostics get the index of the sample just produced")
            V.ensure(idx == b + n - c * g.K, "and its position in the buffer")
            V.ensure(V.iff(last, idx + B >= b + c), "told before the signals move to the next chunk")
            g.K = g.K + V.ite(last, 1, 0)

        def dispatch(self, folder):
            pass
    sim = sm.Simulator(si, Arrays(), None, V.rng("seed"))
    sig = sm.Signals(si, V.mklist([]))
    sig.idx = b
    sim.diag = Diag()
    if with_proc:
        sim.add_processor(Proc())

    def prepare(*a):
        sim.sig = sig
        sim.propagator = Prop()
    V.patch(sm.Simulator, "_prepare_simulation", prepare, both=True)
    V.inv(num=[("x == x0 + samples", lambda x, x0, k: x == x0 + g.n)],
          state=[("local index", lambda k: sim.sig.idx == b + g.n - c * g.K), ("room", lambda k: sim.sig.idx <= V.max(b, b + c - B)), ("end", lambda k: g.n <= T + B), ("history", lambda k: sim.sig.idx >= b - B + 1),
                 ("calls", lambda k: g.calls == (g.n // B if with_proc else 0)), ("count", lambda k: g.n == k), ("n_tot", lambda k: sim.n_tot == g.n)])
    with sc.quiet():
        sim.run_simulation()
    V.ensure(g.n == T + B, "every sample, and one more block")


def mk(with_proc):
    def f(V):
        run_loop(V, with_proc)
    f.__name__ = "main_loop_" + ("processor" if with_proc else "no_processor")
    return harness(functions=[SIM + ":Simulator.run_simulation", SIM + ":Simulator.diag_moved_from_propagate", SIM + ":Simulator.last_block_on_buffer", SIM + ":Signals._reset_signals",
                              SIM + ":Simulator.add_processor"], fuzz=200)(f)


HARNESSES = [mk(True), mk(False)]
