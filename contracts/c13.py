"""C13: generated impulse responses have the right shape and values for their type."""
from pyvc.harness import harness
from contracts import scene as sc

RI = "aspsim.room.roomimpulseresponse"
PG = RI + ":PathGenerator."


def arrays(V, ns, nm, lo=-1.0, hi=1.0):
    ar = V.mod("aspsim.array")
    A = ar.ArrayCollection()
    A.add_array(ar.ControllableSourceArray("s", V.tensor("source positions", (ns, 3), lo=lo, hi=hi)))
    A.add_array(ar.MicArray("m", V.tensor("microphone positions", (nm, 3), lo=lo, hi=hi)))
    return A


@harness(functions=[PG + "create_path"], fuzz=200, prove=False)
def simple_types(V):
    np, rir = V.np, V.mod(RI)
    si = sc.info(V, 10, 10, 10, max_room_ir_length=V.int("max_room_ir_length", 1, 30), rt60=0.0)
    kind = V.choice("type", ["none", "direct", "random", "unknown", "direct, wrong sizes"])
    ns = V.int("sources", 1, 4)
    nm = V.int("microphones", 1, 4) if kind != "direct" else ns
    A = arrays(V, ns, nm)
    gen = rir.PathGenerator(si, A)
    if kind == "unknown":
        V.ensure(V.raises(lambda: gen.create_path(A["s"], A["m"], V.choice("name", ["", "identity", "NONE", "modified", None]), si)) is not None, "an unknown type is rejected")
        return
    if kind == "direct, wrong sizes":
        V.assume(ns != nm)
        V.ensure(V.raises(lambda: gen.create_path(A["s"], A["m"], "direct", si)) is not None, "direct needs as many microphones as sources")
        return
    with sc.quiet():
        out = gen.create_path(A["s"], A["m"], kind, si, *([True, True] if V.bool("with metadata") else []))
    h = out[0] if isinstance(out, tuple) else out
    if kind == "random":
        V.ensure(h.shape == (ns, nm, si.max_room_ir_length), "random: one impulse response of the configured length per pair")
        V.ensure(np.unique(h).size == h.size, "random: all values are drawn")
    else:
        V.ensure(h.shape[:2] == (ns, nm) and h.ndim == 3 and h.shape[2] >= 1, "one impulse response per source channel and microphone")
        want = np.zeros(h.shape)
        if kind == "direct":
            for i in range(ns):
                want[i, i, 0] = 1
        V.ensure_eq_t(h, want, f"{kind}: " + ("all zeros" if kind == "none" else "a unit impulse between channels of equal index, zero between all others"), tol=0)


def oracle(np, size, absorption, order, fs, c, delay, src, mic):
    import pyroomacoustics as pra
    old = {k: pra.constants.get(k) for k in ("c", "frac_delay_length")}
    pra.constants.set("c", c)
    pra.constants.set("frac_delay_length", 2 * delay + 1)
    try:
        room = pra.ShoeBox(size, materials=pra.Material(absorption), fs=fs, max_order=order)
        room.add_source(src)
        room.add_microphone_array(pra.MicrophoneArray(np.asarray(mic)[:, None], fs))
        room.compute_rir()
        return np.asarray(room.rir[0][0])
    finally:
        for k, v in old.items():
            pra.constants.set(k, v)


def ism_case(V, nmics=None):
    np, rir = V.np, V.mod(RI)
    size = [round(V.real(f"size{i}", 1.0, 6.0), 2) for i in range(3)]
    center = [round(V.real(f"center{i}", -5.0, 5.0), 2) for i in range(3)]
    fs = V.choice("samplerate", [500, 1000, 4000])
    si = sc.info(V, 10, 10, 10, reverb="ism", room_size=size, room_center=center, samplerate=fs, c=V.choice("c", [343.0, 300.0, 350.5]),
                 rt60=V.choice("rt60", [0.0, 0.0, 0.06, 0.1]) if nmics is None else 0.0, extra_delay=V.int("extra_delay", 0, 12), max_room_ir_length=V.int("max_room_ir_length", 1, 400) if nmics is None else V.int("max_room_ir_length", 1, 60))
    ns, nm = V.int("sources", 1, 3), (V.int("microphones", 1, 4) if nmics is None else nmics)
    u = V.tensor("relative positions", (ns + nm, 3), lo=-0.47, hi=0.47)
    pos = u * np.array(size) + np.array(center)
    ar = V.mod("aspsim.array")
    A = ar.ArrayCollection()
    A.add_array(ar.ControllableSourceArray("s", pos[:ns]))
    A.add_array(ar.MicArray("m", pos[ns:]))
    V.assume(all(np.linalg.norm(p - q) > 0.02 for p in pos[:ns] for q in pos[ns:]))
    if si.rt60 > 0:            # not every reverberation time is possible in every room
        import pyroomacoustics as pra
        try:
            pra.inverse_sabine(si.rt60, np.array(size), c=si.c)
        except ValueError:
            V.assume(False)
    with sc.quiet():
        gen = rir.PathGenerator(si, A)
    if V.bool("another generator in between"):
        o = sc.info(V, 10, 10, 10, c=200.0, rt60=0.0, extra_delay=3)
        with sc.quiet():
            rir.PathGenerator(o, A)
    with sc.quiet():
        h, info = gen.create_path(A["s"], A["m"], "ism", si, True, V.bool("verbose"))
        plain = gen.create_path(A["s"], A["m"], "ism", si)
    V.ensure(h.shape == (ns, nm, si.max_room_ir_length), "one impulse response of exactly the configured length per source channel and microphone")
    if si.extra_delay > 0:      # without extra delay see without_extra_delay
        V.ensure(bool(np.isfinite(h).all()), "the values are finite numbers")
    V.ensure_eq_t(plain, h, "the same with and without metadata", tol=1e-10)
    meta = info["ism_info"]
    return si, A, pos, ns, nm, h, meta, gen


@harness(functions=[PG + "create_path", RI + ":ir_room_image_source_3d"], fuzz=60, prove=False, max_fuzz_s=40)
def image_sources(V):
    np = V.np
    si, A, pos, ns, nm, h, meta, gen = ism_case(V)
    off = np.array(si.room_size) / 2 - np.array(si.room_center)
    L = si.max_room_ir_length
    for i in range(ns):
        for j in range(nm):
            full = oracle(np, si.room_size, meta["Energy Absorption"], meta["Max ISM order"], si.samplerate, si.c, si.extra_delay, pos[i] + off, pos[ns + j] + off)
            want = np.zeros(L)
            k = min(L, len(full))
            want[:k] = full[:k]
            V.ensure_eq_t(h[i, j], want, "the image-source response of this source and microphone in the configured room, cut or zero padded", tol=1e-8)
    if si.rt60 > 0:
        V.ensure(meta["Max ISM order"] > 0, "reverberation needs reflections")
    else:
        V.ensure(meta["Max ISM order"] == 0, "no reverberation: only the direct sound")
    ar = V.mod("aspsim.array")
    j = V.int("alone", 0, nm - 1)
    with sc.quiet():
        one = gen.create_path(A["s"], ar.MicArray("one", pos[ns + j:ns + j + 1]), "ism", si)
    V.ensure_eq_t(one[:, 0], h[:, j], "a microphone alone has the same paths as among others", tol=1e-8)
    shift = np.array([V.real(f"shift{i}", -3, 3) for i in range(3)])
    si.room_center = list(np.array(si.room_center) + shift)
    with sc.quiet():
        moved = gen.create_path(ar.ControllableSourceArray("s", pos[:ns] + shift), ar.MicArray("m", pos[ns:] + shift), "ism", si)
    # pyroomacoustics rounds delays: a distance that changes in its last digit can move a tap by a sample
    V.ensure(np.mean(np.abs(np.cumsum(moved - h, axis=-1)) > 1e-6 * max(1, np.abs(h).max())) < 0.1, "moving room, sources and microphones together changes nothing")


@harness(functions=[RI + ":ir_room_image_source_3d"], fuzz=3, prove=False, max_fuzz_s=90, deep=4)
def many_microphones(V):
    np = V.np
    nm = V.choice("number", [499, 500, 501, 999, 1000, 1001, 1203])
    si, A, pos, ns, nm, h, meta, gen = ism_case(V, nm)
    off = np.array(si.room_size) / 2 - np.array(si.room_center)
    L = si.max_room_ir_length
    for j in {0, 1, 250, 498, 499, 500, 501, 998, 999, 1000, 1001, 1202, nm - 1}:
        if j < nm:
            for i in range(ns):
                full = oracle(np, si.room_size, meta["Energy Absorption"], meta["Max ISM order"], si.samplerate, si.c, si.extra_delay, pos[i] + off, pos[ns + j] + off)
                want = np.zeros(L)
                k = min(L, len(full))
                want[:k] = full[:k]
                V.ensure_eq_t(h[i, j], want, "each of many microphones has its own paths", tol=1e-8)


@harness(functions=[RI + ":ir_room_image_source_3d", PG + "calc_rir_parameters"], fuzz=1, prove=False, deep=1)
def without_extra_delay(V):
    """the default configuration, which has no extra delay"""
    np, rir, ar = V.np, V.mod(RI), V.mod("aspsim.array")
    si = sc.info(V, 10, 10, 10, reverb="ism", extra_delay=0, rt60=0.0)
    A = ar.ArrayCollection()
    A.add_array(ar.ControllableSourceArray("s", np.array([[0.5, 0.2, 0.1]])))
    A.add_array(ar.MicArray("m", np.array([[-0.5, 0.1, 0.0]])))
    with sc.quiet():
        h = rir.PathGenerator(si, A).create_path(A["s"], A["m"], "ism", si)
    V.ensure(h.shape == (1, 1, si.max_room_ir_length), "one impulse response of the configured length per pair")
    V.ensure(bool(np.isfinite(h).all()), "with extra_delay 0 the values are finite numbers")
