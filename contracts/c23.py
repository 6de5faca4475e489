"""C23: frequency-domain paths are the transforms of the time-domain paths."""
from pyvc.harness import harness

AR = "aspsim.array"


def collection(V, kinds, nmics):
    ar = V.mod(AR)
    A = ar.ArrayCollection()
    num, paths = {}, {}
    for i, k in enumerate(kinds):
        n = V.int(f"channels s{i}", 1, 3)
        num[f"s{i}"] = n
        pos = V.tensor(f"pos s{i}", (n, 3))
        if k == "ctrl":
            A.add_array(ar.ControllableSourceArray(f"s{i}", pos))
        else:
            class Src:
                metadata = {}
                num_channels = n
            A.add_array(ar.FreeSourceArray(f"s{i}", pos, Src()))
    for j in range(nmics):
        n = V.int(f"channels m{j}", 1, 3)
        num[f"m{j}"] = n
        A.add_array(ar.MicArray(f"m{j}", V.tensor(f"pos m{j}", (n, 3))))
    for i in range(len(kinds)):
        for j in range(nmics):
            L = V.int(f"length s{i} m{j}", 1, 40)
            h = V.tensor(f"path s{i} m{j}", (num[f"s{i}"], num[f"m{j}"], L))
            A.set_prop_path(h, f"s{i}", f"m{j}")
            paths[f"s{i}", f"m{j}"] = h
    return A, num, paths


@harness(functions=[AR + ":ArrayCollection.get_freq_paths", AR + ":ArrayCollection.iter_paths"], fuzz=250, prove=False)
def transforms(V):
    np = V.np
    kinds = [V.choice(f"kind{i}", ["ctrl", "free"]) for i in range(V.int("sources", 0, 3))]
    A, num, paths = collection(V, kinds, V.int("mics", 0, 3))
    F = 2 * V.int("half the transform length", 1, 40)
    fs = V.choice("samplerate", [1, 1000, 16000, 44100.0])
    before = {k: v.copy() for k, v in paths.items()}
    out, freqs = A.get_freq_paths(F, fs)
    V.ensure_eq_t(freqs, np.array([fs * i / F for i in range(F // 2 + 1)]), "equally spaced frequencies from 0 to half the sample rate")
    V.ensure({(s, m) for s in out for m in out[s]} == set(paths), "every source and microphone pair, and no other")
    for (s, m), h in before.items():
        t = np.arange(min(h.shape[-1], F))
        E = np.exp(-2j * np.pi * np.outer(np.arange(F // 2 + 1), t) / F)
        want = np.einsum("ft,smt->fms", E, h[..., :F])
        V.ensure_eq_t(out[s][m], want, "frequency, microphone, source: the transform of the impulse response", tol=1e-8)
        V.ensure_eq_t(A.paths[s][m], h, "the impulse responses are left as they are", tol=0)
