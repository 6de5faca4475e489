"""C07: deterministic sources generate the waveform their parameters define (after any number of calls of any size)."""
from pyvc.harness import harness

SRC = "aspsim.signal.sources"


def calls(V, src, check, g, label):
    """any number of get_samples calls of any size; check(sig, first absolute index, number of samples) after each"""
    n = V.int("calls", 0)
    V.require_small(n)

    def step(k):
        m = V.int("size", 0, near=3)
        V.require_small(m)
        sig = src.get_samples(m)
        check(sig, g.total, m)
        g.total = g.total + m
    V.loop(n, step, label)


def counter_like(g, start=0):
    return dict(num=[("x == start + samples so far", lambda x, x0, k: x == x0 + g.total)])


@harness(functions=[SRC + ":SineSource.__init__", SRC + ":SineSource.get_samples"], fuzz=150)
def sine(V):
    C = V.int("channels", 1, 4)
    mode = V.choice("power given as", ["scalar", "array"])
    power = V.real("power", 0) if mode == "scalar" else V.tensor("powers", (C,), lo=0, hi=9)
    freq, sr = V.real("freq", 0, 20), V.real("samplerate", 1, 50)
    src = V.mod(SRC).SineSource(C, power, freq, sr, V.rng("seed"))
    ph = V.rng("seed").uniform(low=0, high=2 * V.np.pi, size=(C, 1))
    w = 2 * V.np.pi * freq / sr
    g = V.ghost(total=0)

    def amp2(c):
        return 2 * (power if mode == "scalar" else V.at(power, c))

    def check(sig, t0, m):
        V.ensure(V.and_(V.shape(sig)[0] == C, V.shape(sig)[1] == m), "one row per channel, one column per sample")
        V.forall((C, m), lambda c, j: V.eq(V.at(sig, c, j), V.sqrt(amp2(c)) * V.cos(V.at(ph, c, 0) + w * (t0 + j)), tol=1e-6),
                 "sample k is sqrt(2 power) * cos(start phase + 2 pi f k / samplerate)")
    V.inv(tensor_el=[("phase", lambda idx, v, v0, k: v == (v0 + g.total * w) % (2 * V.np.pi)),
                     ("unwrapped", lambda idx, v, v0, k: v == v0 + g.total * w)], **counter_like(g))
    calls(V, src, check, g, "calls")


@harness(functions=[SRC + ":MultiSineSource.__init__", SRC + ":MultiSineSource.get_samples"], fuzz=150, bounded="1 to 3 frequencies")
def multisine(V):
    F = V.choice("sines", [1, 2, 3])
    freqs = V.tensor("freqs", (F,), lo=0, hi=20)
    power = V.real("power", 0)
    sr = V.real("samplerate", 1, 50)
    as_list = V.bool("list")
    src = V.mod(SRC).MultiSineSource(1, power, list(freqs) if as_list else freqs, sr, V.rng("seed"))
    ph = V.rng("seed").uniform(low=0, high=2 * V.np.pi, size=F)
    g = V.ghost(total=0)
    w = [2 * V.np.pi * V.at(freqs, i) / sr for i in range(F)]

    def check(sig, t0, m):
        V.ensure(V.and_(V.shape(sig)[0] == 1, V.shape(sig)[1] == m), "one row, one column per sample")

        def spec(c, j):
            r = 0
            for i in range(F):
                r = r + V.sqrt(2 * power / F) * V.cos(w[i] * (t0 + j) + V.at(ph, i))
            return V.eq(V.at(sig, 0, j), r, tol=1e-6)
        V.forall((1, m), spec, "sample k is the sum of the sines at k")

    def wi(i):
        r = w[F - 1]
        for q in range(F - 1):
            r = V.ite(i == q, w[q], r)
        return r
    V.inv(tensor_el=[("phase", lambda idx, v, v0, k: v == (v0 + g.total * wi(idx[0])) % (2 * V.np.pi))], **counter_like(g))
    calls(V, src, check, g, "calls")


@harness(functions=[SRC + ":Counter.__init__", SRC + ":Counter.get_samples"], fuzz=150)
def counter(V):
    start = V.int("start")
    src = V.mod(SRC).Counter(1, start)
    g = V.ghost(total=0)

    def check(sig, t0, m):
        V.ensure(V.and_(V.shape(sig)[0] == 1, V.shape(sig)[1] == m), "one row, one column per sample")
        V.forall((m,), lambda j: V.at(sig, 0, j) == start + t0 + j, "sample k is start + k")
    V.inv(**counter_like(g))
    calls(V, src, check, g, "calls")


@harness(functions=[SRC + ":PulseTrain.__init__", SRC + ":PulseTrain.get_samples"], fuzz=150)
def pulse_train(V):
    C = V.int("channels", 1, 4)
    per_ch = V.choice("parameters per channel", [False, True])
    if per_ch:
        A, P, D = V.tensor("amplitude", (C,)), V.tensor("period", (C,), "int", 1, 9), V.tensor("delay", (C,), "int", -9, 9)
        a, p, d = (lambda c: V.at(A, c)), (lambda c: V.at(P, c)), (lambda c: V.at(D, c))
    else:
        A, P, D = V.real("amplitude"), V.int("period", 1), V.int("delay")
        a, p, d = (lambda c: A), (lambda c: P), (lambda c: D)
    src = V.mod(SRC).PulseTrain(C, A, P, D)
    g = V.ghost(total=0)

    def check(sig, t0, m):
        V.ensure(V.and_(V.shape(sig)[0] == C, V.shape(sig)[1] == m), "one row per channel, one column per sample")
        V.forall((C, m), lambda c, j: V.eq(V.at(sig, c, j), V.ite((t0 + j - d(c)) % p(c) == 0, a(c), 0)),
                 "sample k is the amplitude if k - delay is a multiple of the period, otherwise 0")
    V.inv(tensor_el=[("index", lambda idx, v, v0, k: V.or_(len(idx) != 1, v == v0 + g.total)),
                     ("index in call", lambda idx, v, v0, k: V.or_(len(idx) != 1, v == v0 + k)),
                     ("filled", lambda idx, v, v0, k: len(idx) != 2 or V.implies(idx[-1] < k,
                                                                v == V.ite((g.total + idx[-1] - d(idx[0])) % p(idx[0]) == 0, a(idx[0]), 0))),
                     ("not yet filled", lambda idx, v, v0, k: len(idx) != 2 or V.implies(idx[-1] >= k, v == 0))],
          **counter_like(g))
    calls(V, src, check, g, "calls")


def block_invariants(V, start, n, bs):
    """invariants for the loop of calc_block_sizes(n, start, bs); start and n are functions (state at the call)"""
    V.inv(elem=[("0<e<=bs", lambda i, e, pre: V.and_(e > 0, e <= bs)),
                ("aligned", lambda i, e, pre: V.or_(i == 0, (start() + pre) % bs == 0)),
                ("fits", lambda i, e, pre: V.implies(i == 0, e <= bs - start()))],
          elem_list=[("prefix<=total", lambda i, e, pre, l: pre + e <= l.total())],
          num=[("0<x<=bs", lambda x, x0, k: V.and_(x > 0, x <= bs))],
          lst=[("next is aligned", lambda l, k: V.or_(l.n == 0, l.total() >= n(), (start() + l.total()) % bs == 0))])
    V.invx(lambda l, x: V.or_(l.total() >= n(), V.and_(l.n == 0, x == bs - start()), V.and_(l.n > 0, x == bs)))


@harness(functions=[SRC + ":Sequence.__init__", SRC + ":Sequence.get_samples"], fuzz=200)
def sequence_zeros(V):
    C, N = V.int("channels", 1, 3), V.int("length", 1)
    audio = V.tensor("audio", (C, N))
    amp = V.real("amp")
    src = V.mod(SRC).Sequence(audio, amp, "zeros")
    g = V.ghost(total=0)

    def check(sig, t0, m):
        V.ensure(V.and_(V.shape(sig)[0] == C, V.shape(sig)[1] == m), "one row per channel, one column per sample")
        V.forall((C, m), lambda c, j: V.eq(V.at(sig, c, j), V.ite(t0 + j < N, amp * V.at(audio, c, V.min(t0 + j, N - 1)), 0)),
                 "the audio once, then silence")
    V.inv(num=[("position", lambda x, x0, k: x == V.min(g.total, N)), ("count", lambda x, x0, k: x == g.total)])
    calls(V, src, check, g, "calls")


@harness(functions=[SRC + ":Sequence.__init__", SRC + ":Sequence.get_samples"], fuzz=200)
def sequence_raise(V):
    C, N = V.int("channels", 1, 3), V.int("length", 1)
    audio = V.tensor("audio", (C, N))
    amp = V.real("amp")
    src = V.mod(SRC).Sequence(audio, amp, "raise")
    g = V.ghost(total=0)
    n = V.int("calls", 0)
    V.require_small(n)

    def step(k):
        m = V.int("size", 0, near=3)
        V.require_small(m)
        if V.split(g.total + m > N):
            V.ensure(V.raises(lambda: src.get_samples(m)) is not None, "asking for more than is left raises")
        else:
            sig = src.get_samples(m)
            V.ensure(V.and_(V.shape(sig)[0] == C, V.shape(sig)[1] == m), "one row per channel, one column per sample")
            V.forall((C, m), lambda c, j: V.eq(V.at(sig, c, j), amp * V.at(audio, c, g.total + j)), "the audio in order")
            g.total = g.total + m
    V.inv(num=[("position", lambda x, x0, k: x == g.total), ("fits", lambda x, x0, k: x <= N)])
    V.loop(n, step, "calls")


@harness(functions=[SRC + ":Sequence.__init__", SRC + ":Sequence.get_samples"], fuzz=200, prove=False)
def sequence_repeat(V):
    C, N = V.int("channels", 1, 3), V.int("length", 1)
    audio = V.tensor("audio", (C, N))
    amp = V.real("amp")
    src = V.mod(SRC).Sequence(audio, amp, "repeat")
    g = V.ghost(total=0, size=0)

    def check(sig, t0, m):
        V.ensure(V.and_(V.shape(sig)[0] == C, V.shape(sig)[1] == m), "one row per channel, one column per sample")
        V.forall((C, m), lambda c, j: V.eq(V.at(sig, c, j), amp * V.at(audio, c, (t0 + j) % N)), "the audio over and over")
    n = V.int("calls", 0)
    V.require_small(n)

    def step(k):
        m = V.int("size", 0, near=3)
        V.require_small(m)
        g.size = m
        sig = src.get_samples(m)
        check(sig, g.total, m)
        g.total = g.total + m
    block_invariants(V, lambda: g.total % N, lambda: g.size, N)
    V.inv(num=[("position", lambda x, x0, k: x == g.total % N)],
          pair=[("position in call", lambda x, y: x == (g.total + y) % N)],
          tensor_num=[("filled", lambda idx, v, x: len(idx) != 2 or V.implies(idx[1] < x, v == V.at(audio, idx[0], (g.total + idx[1]) % N)))])
    V.loop(n, step, "calls")
