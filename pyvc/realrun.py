"""Runs harnesses on the real code (under /opt/venv/bin/python): random inputs (bounded stand-in, cross-check of the
contracts against CPython/numpy) and replay of counter-models."""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)
warnings.simplefilter("ignore")
import importlib                                              # noqa
from pyvc.harness import collect, RealV, Discard, Violated    # noqa

REPO_MARK = os.path.abspath(REPO_SRC)


def repo_frames(e):
    return [(os.path.relpath(f.filename, REPO_MARK), f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(REPO_MARK)]


def jsonable(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype == object or v.size > 4000:
            return {"shape": list(v.shape), "repr": repr(v)[:300]}
        return {"shape": list(v.shape), "values": [x if not isinstance(x, complex) else repr(x) for x in v.reshape(-1).tolist()]}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return repr(v)[:300]


RUN_LIMIT = 90     # seconds for one run (runs take well under a second; the limit only finds endless loops)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def once(h, V):
    """None, or a violation record"""
    import numpy as np
    np.random.seed(V.rnd.randrange(1 << 31))
    random.seed(V.rnd.randrange(1 << 31))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT)
    try:
        h.fn(V)
        return None
    except Hang:
        return {"label": "the call returns", "detail": f"no return within {RUN_LIMIT} s", "values": jsonable(V.drawn)}
    except Violated as e:
        return {"label": e.label, "detail": e.detail[:600], "values": jsonable(V.drawn)}
    except Discard:
        raise
    except Exception as e:     # noqa
        fr = repo_frames(e)
        if not fr and isinstance(e, (IndexError, ValueError, KeyError)):
            return {"label": f"the result can be read as the contract states it: {type(e).__name__}", "detail": traceback.format_exc()[-500:], "values": jsonable(V.drawn)}
        if not fr:
            raise
        return {"label": f"no exception in {fr[-1][0]} {fr[-1][2]}: {type(e).__name__}", "detail": f"{type(e).__name__}: {e}"[:400] + " at " + " > ".join(f"{a}:{b} {c}" for a, b, c in fr[-4:]),
                "values": jsonable(V.drawn)}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        V.undo()


def fuzz(h, n, seed, max_s):
    t0 = time.time()
    out = {"harness": h.name, "runs": 0, "discarded": 0, "checks": 0, "violation": None, "error": None, "samples": [], "distinct": 0}
    seen = set()
    import zlib
    base = (seed * 1000003 + zlib.crc32(h.name.encode())) & 0x7FFFFFFF
    i = 0
    errors = 0
    while out["runs"] < n and i < 20 * n and time.time() - t0 < max_s:
        V = RealV(rnd=random.Random(base + 7919 * i))
        i += 1
        try:
            r = once(h, V)
        except Discard:
            out["discarded"] += 1
            continue
        except Exception:     # noqa  an error of the harness itself
            errors += 1
            out["error"] = traceback.format_exc()[-1500:]
            if errors > 5:
                break
            continue
        out["runs"] += 1
        out["checks"] += V.checks
        key = hash(json.dumps(jsonable(V.drawn), default=repr))
        if key not in seen:
            seen.add(key)
            if len(out["samples"]) < 3:
                out["samples"].append(shorten(jsonable(V.drawn)))
        if r is not None:
            r["iteration"] = i - 1
            out["violation"] = r
            break
    out["distinct"] = len(seen)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def shorten(d):
    s = json.dumps(d, default=repr)
    return d if len(s) < 600 else s[:600]


def replay(h, values):
    vals = dict(values)
    last = None
    for k in range(5):
        V = RealV(values=vals, rnd=random.Random(k))
        try:
            r = once(h, V)
        except Discard:
            last = "the counter-model does not satisfy the precondition on the real code"
            continue
        except Exception:    # noqa
            last = traceback.format_exc()[-800:]
            continue
        if r is not None:
            return {"reproduced": True, **r}
        last = "the real code satisfies the contract on the counter-model"
    return {"reproduced": False, "why": last}


def main():
    task = json.load(open(sys.argv[1]))
    outp = sys.argv[2]
    mod = importlib.import_module(f"contracts.{task['module']}")
    hs = {h.name: h for h in collect(mod)}
    res = []
    for t in task["tasks"]:
        h = hs[t["harness"]]
        try:
            if t["type"] == "fuzz":
                r = fuzz(h, t["n"], t["seed"], t["max_s"])
            else:
                r = replay(h, t["values"])
        except Exception:     # noqa
            r = {"error": traceback.format_exc()[-2000:]}
        r["harness"] = h.name
        r["type"] = t["type"]
        res.append(r)
        with open(outp + ".tmp", "w") as f:
            json.dump(res, f, default=repr)
        os.replace(outp + ".tmp", outp)
    hook = getattr(mod, "FINISH", None)
    if hook:
        hook()


if __name__ == "__main__":
    main()
