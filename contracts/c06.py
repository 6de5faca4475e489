"""C06: a source's stream does not depend on how it is split into blocks.
Contract: two equal sources (equal parameters, equal random generator states), both asked for any number of samples first; then
get(a), get(b), get(c) of one equals get(a+b), get(c) of the other, for all a, b, c. With it the stream of any partition equals
the stream in one call (induction over the number of blocks: the last get(c) stands for the state after both ways)."""
from pyvc.harness import harness

SRC = "aspsim.signal.sources"
GET = ".get_samples"


def split_lemma(V, make, C, extra_small=None, lo=0):
    s1, s2 = make(), make()
    p, a, b, c = (V.int(n, lo, near=near) for n, near in (("before", 5), ("a", 4), ("b", 4), ("c", 4)))
    V.require_small(p, a, b, c)
    s1.get_samples(p)
    s2.get_samples(p)
    x, y, z = s1.get_samples(a), s1.get_samples(b), s1.get_samples(c)
    u, w = s2.get_samples(a + b), s2.get_samples(c)
    for s, n in ((x, a), (y, b), (z, c), (u, a + b), (w, c)):
        V.ensure(V.and_(len(V.shape(s)) == 2, V.shape(s)[0] == C, V.shape(s)[1] == n), "one row per channel, one column per sample")
    V.forall((C, a), lambda i, j: V.eq(V.at(x, i, j), V.at(u, i, j), tol=1e-6), "first block equals the start of the whole")
    V.forall((C, b), lambda i, j: V.eq(V.at(y, i, j), V.at(u, i, a + j), tol=1e-6), "second block continues the first")
    V.forall((C, c), lambda i, j: V.eq(V.at(z, i, j), V.at(w, i, j), tol=1e-6), "the state afterwards is the same")


@harness(functions=[SRC + ":WhiteNoiseSource" + GET], fuzz=100)
def white_noise(V):
    C = V.int("channels", 1, 4)
    power = V.real("power", 0) if V.choice("power given as", ["scalar", "array"]) == "scalar" else V.tensor("powers", (C,), lo=0, hi=9)
    split_lemma(V, lambda: V.mod(SRC).WhiteNoiseSource(C, power, V.rng("seed")), C)


@harness(functions=[SRC + ":SineSource" + GET], fuzz=100)
def sine(V):
    C = V.int("channels", 1, 4)
    power, freq, sr = V.real("power", 0), V.real("freq", 0, 20), V.real("samplerate", 1, 50)
    split_lemma(V, lambda: V.mod(SRC).SineSource(C, power, freq, sr, V.rng("seed")), C)


@harness(functions=[SRC + ":MultiSineSource" + GET], fuzz=100, bounded="1 to 2 frequencies")
def multisine(V):
    F = V.choice("sines", [1, 2])
    freqs, power, sr = V.tensor("freqs", (F,), lo=0, hi=20), V.real("power", 0), V.real("samplerate", 1, 50)
    split_lemma(V, lambda: V.mod(SRC).MultiSineSource(1, power, freqs, sr, V.rng("seed")), 1)


@harness(functions=[SRC + ":Counter" + GET], fuzz=100)
def counter(V):
    start = V.int("start")
    split_lemma(V, lambda: V.mod(SRC).Counter(1, start), 1)


@harness(functions=[SRC + ":PulseTrain" + GET], fuzz=100, prove=False)
def pulse_train(V):
    C = V.int("channels", 1, 3)
    A, P, D = V.tensor("amplitude", (C,)), V.tensor("period", (C,), "int", 1, 9), V.tensor("delay", (C,), "int", -9, 9)
    split_lemma(V, lambda: V.mod(SRC).PulseTrain(C, A, P, D), C)


@harness(functions=[SRC + ":Sequence" + GET], fuzz=100)
def sequence_zeros(V):
    C, N = V.int("channels", 1, 3), V.int("length", 1)
    audio, amp = V.tensor("audio", (C, N)), V.real("amp")
    split_lemma(V, lambda: V.mod(SRC).Sequence(audio, amp, "zeros"), C)


@harness(functions=[SRC + ":Sequence" + GET], fuzz=100, prove=False)
def sequence_repeat(V):
    C, N = V.int("channels", 1, 3), V.int("length", 1)
    audio, amp = V.tensor("audio", (C, N)), V.real("amp")
    split_lemma(V, lambda: V.mod(SRC).Sequence(audio, amp, "repeat"), C)


@harness(functions=[SRC + ":GoldSequenceSource" + GET], fuzz=60, prove=False)
def gold(V):
    order = V.choice("order", [5, 6, 7, 8, 9, 10, 11, 13])
    C = V.int("channels", 1, 4)
    power = V.real("power", 0)
    L = 2 ** order - 1
    s1, s2 = (V.mod(SRC).GoldSequenceSource(C, power, order) for _ in range(2))
    skip = V.int("skip", 0, L - 1, near=L - 10)
    s1.get_samples(skip)
    s2.get_samples(skip)
    it = iter((s1, s2))
    split_lemma(V, lambda: next(it), C)


@harness(functions=[SRC + ":MLS" + GET], fuzz=60, prove=False)
def mls(V):
    order = V.int("order", 2, 12)
    st = V.choice("state", ["default", "given"])
    state = V.tensor("start state", (order,), "int", 0, 1) if st == "given" else None
    if state is not None:
        V.assume(state.sum() > 0)
    split_lemma(V, lambda: V.mod(SRC).MLS(1, order, None, None if state is None else state.copy()), 1)


@harness(functions=[SRC + ":BandlimitedNoiseSource" + GET], fuzz=40, prove=False)
def bandlimited(V):
    C = V.int("channels", 1, 3)
    f1, f2 = V.real("f1", 100, 400), V.real("f2", 600, 1500)
    power = V.real("power", 0, 10)
    split_lemma(V, lambda: V.mod(SRC).BandlimitedNoiseSource(C, power, (f1, f2), 4000, V.rng("seed")), C)


@harness(functions=[SRC + ":AutocorrSource" + GET], fuzz=40, prove=False)
def autocorr(V):
    C, L = V.int("channels", 1, 3), V.int("lags", 2, 4)
    rho = V.tensor("rho", (C,), lo=0.1, hi=0.8)
    p0 = V.tensor("p0", (C,), lo=0.5, hi=3)
    ac = p0[:, None] * rho[:, None] ** V.np.arange(L)[None, :]
    from aspcore import correlation as cr
    V.assume(cr.is_autocorr_func(ac))
    split_lemma(V, lambda: V.mod(SRC).AutocorrSource(C, ac, V.rng("seed")), C)
