#!/usr/bin/env python3
"""Decides one property: discharges the obligations of its contracts on /repo's current source, runs the bounded
stand-ins on the real code, replays counter-models, writes evidence/<id>.json.
usage: check.py <id> [--tier quick|thorough]     (check.py <id> --replay FILE re-runs a recorded violation)"""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
REAL = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = {}
                head, _, what = l[6:].partition("::")
                for tok in head.split("|"):
                    k, _, v = tok.strip().partition("=")
                    d[k] = v
                d["what"] = what.strip()
                out.append(d)
    return out


def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, f"timeout {timeout}s"


def prove_one(mod, name, tmp, timeout):
    out = os.path.join(tmp, f"p_{name}.json")
    t = time.time()
    rc, txt = sh([VT, "-m", "pyvc.prove", mod, name, out], timeout)
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    return {"harness": name, "status": "undecided" if rc is None else "error", "error": txt[-1500:], "obligations": [], "n": 0, "discharged": 0,
            "fails": [], "functions": [], "solver_s": 0.0, "queries": 0, "wall_s": round(time.time() - t, 1)}


def real_batch(mod, tasks, tmp, tag, timeout):
    tin, tout = os.path.join(tmp, f"r_{tag}.in"), os.path.join(tmp, f"r_{tag}.json")
    json.dump({"module": mod, "tasks": tasks}, open(tin, "w"), default=repr)
    env = dict(ENV, MPLCONFIGDIR=os.path.join(tmp, "mpl"), NUMBA_CACHE_DIR=os.path.join(tmp, "numba"), HOME=tmp, TMPDIR=tmp)
    rc, txt = sh([REAL, "-m", "pyvc.realrun", tin, tout], timeout, env)
    res = []
    if os.path.exists(tout):
        try:
            res = json.load(open(tout))
        except ValueError:
            res = []
    if len(res) < len(tasks):
        for t in tasks[len(res):]:
            res.append({"harness": t["harness"], "type": t["type"], "error": f"worker ended (rc={rc}): " + txt[-1200:]})
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = pid.lower()
    from pyvc.harness import collect
    mod = importlib.import_module(f"contracts.{modname}")
    hs = collect(mod)
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
        hs = [h for h in hs if h.name in only]
    base = os.environ.get("TMPDIR", "/tmp")
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_", dir=base)
    try:
        if "--replay" in sys.argv:
            rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            r = real_batch(modname, [{"type": "replay", "harness": rec["harness"], "values": rec.get("values", {})}], tmp, "replay", 300)
            print(json.dumps(r, indent=1))
            return 1 if r[0].get("reproduced") else 0
        return decide(pid, modname, mod, hs, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, modname, mod, hs, tier, seed, t0, tmp):
    deep = tier == "thorough"
    provers = [h for h in hs if h.prove]
    fuzzers = [h for h in hs if h.fuzz]
    ptimeout = 1500 if deep else 330
    ftimeout = 1500 if deep else 330
    groups = getattr(mod, "FUZZ_GROUPS", min(4, max(1, len(fuzzers) // 2)))
    batches = [[] for _ in range(max(1, groups))]
    for i, h in enumerate(sorted(fuzzers, key=lambda h: -h.max_fuzz_s)):
        batches[i % len(batches)].append({"type": "fuzz", "harness": h.name, "n": h.fuzz * (h.deep if deep else 1), "seed": seed,
                                          "max_s": h.max_fuzz_s * (6 if deep else 1)})
    proofs, fz = {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        fr = [ex.submit(real_batch, modname, b, tmp, f"f{i}", ftimeout) for i, b in enumerate(batches) if b]
        fp = {ex.submit(prove_one, modname, h.name, tmp, max(ptimeout, h.budget + 60) if deep else min(ptimeout, h.budget + 60)): h.name for h in provers}
        for f in fr:
            for r in f.result():
                fz[r["harness"]] = r
        for f in cf.as_completed(fp):
            proofs[fp[f]] = f.result()
    # replay counter-models on the real code
    tasks = []
    for h in provers:
        r = proofs[h.name]
        if r.get("status") == "refuted" and h.replay:
            for k, fl in enumerate(r["fails"]):
                if fl.get("model") is not None:
                    tasks.append({"type": "replay", "harness": h.name, "values": fl["model"], "k": k})
    reps = real_batch(modname, tasks, tmp, "replay", 300) if tasks else []
    viol = []
    for t, r in zip(tasks, reps):
        fl = proofs[t["harness"]]["fails"][t["k"]]
        fl["replay"] = {k: v for k, v in r.items() if k != "type"}
        if r.get("reproduced"):
            viol.append({"kind": "counter-model replayed on the real code", "harness": t["harness"], "obligation": fl["name"], "label": r["label"],
                         "detail": r.get("detail", ""), "values": r.get("values", t["values"]), "model": fl["model"], "solver_detail": fl.get("detail")})
    for n, r in fz.items():
        if r.get("violation"):
            v = r["violation"]
            viol.append({"kind": "contract violated by a run of the real code", "harness": n, "obligation": v["label"], "label": v["label"],
                         "detail": v.get("detail", ""), "values": v["values"]})
    nff = []
    if not viol:
        for h in provers:
            r = proofs[h.name]
            if r.get("status") != "refuted":
                continue
            for fl in r["fails"]:
                if fl.get("definite"):
                    nff.append({"kind": "obligation refuted by the solver, no failing input found on the real code", "harness": h.name,
                                "obligation": fl["name"], "label": fl["name"], "detail": fl.get("detail", ""), "values": fl.get("model") or {},
                                "backend": fl.get("backend"), "replay_attempt": fl.get("replay")})
                    break
    known = [k for k in load_known() if k.get("property") == pid]
    rest, shown = [], []
    for v in viol + nff:
        k = next((k for k in known if k.get("harness") == v["harness"] and k.get("label", "") == v["label"]), None)
        if k:
            shown.append(k)
        else:
            rest.append(v)
    rep = report(pid, tier, seed, modname, mod, hs, proofs, fz, rest, t0)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(rep, open(os.path.join(d, f"{pid}.json"), "w"), indent=1, default=repr)
    for h in hs:
        p, f = proofs.get(h.name), fz.get(h.name)
        msg = f"  {h.name}: "
        if p:
            msg += f"{p['status']} ({p['discharged']}/{p['n']} obligations, {p.get('paths', 0)} paths, {p['wall_s']}s)"
            if p["status"] not in ("proved",):
                why = p.get("error") or p.get("aborted") or (p.get("unsupported") or [""])[0] or [a["name"] for a in p["obligations"] if a["unknown"] or a["failed"]]
                msg += f" [{str(why)[-300:]}]"
        if f:
            msg += f" | real code: {f.get('runs', 0)} runs, {f.get('checks', 0)} checks" + (" VIOLATED" if f.get("violation") else "") + (f" [error {f['error'][-400:]}]" if f.get("error") else "")
        print(msg)
    for k in {json.dumps(k): k for k in shown}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if rest:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        v = rest[0]
        path = os.path.join(rd, f"{pid}_{v['harness']}.json")
        v["property"] = pid
        v["others"] = [{k: x.get(k) for k in ("harness", "obligation", "detail")} for x in rest[1:6]]
        v["how_to_replay"] = f"python3 check.py {pid} --replay {path}"
        json.dump(v, open(path, "w"), indent=1, default=repr)
        print(f"violated: {v['harness']}: {v['label']} -- {str(v['detail'])[:500]}")
        print(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if not viol or all(x not in rest for x in viol) else ""))
        return 1
    print(f"{pid}: held ({rep['coverage']['discharged']}/{rep['coverage']['obligations']} obligations discharged, {rep['coverage']['bounded_runs']} bounded runs, {rep['wall_s']}s)")
    return 0


def report(pid, tier, seed, modname, mod, hs, proofs, fz, viol, t0):
    funcs, contract, undec, backends = set(), set(), [], {}
    obls = disc = 0
    per = []
    for h in hs:
        p = proofs.get(h.name)
        if not p:
            continue
        obls += p["n"]
        disc += p["discharged"]
        if p["status"] == "proved":
            funcs.update(p["functions"])
            contract.update(h.functions)
        else:
            undec.append({"harness": h.name, "status": p["status"], "why": str(p.get("error") or p.get("aborted") or p.get("unsupported") or "")[:400]})
        for a in p["obligations"]:
            for b, n in a["backends"].items():
                backends[b] = backends.get(b, 0) + n
        per.append({"harness": h.name, "status": p["status"], "functions": h.functions, "obligations": p["n"], "discharged": p["discharged"],
                    "paths": p.get("paths"), "reachable_paths_confirmed": p.get("covered"), "solver_s": p["solver_s"], "queries": p["queries"],
                    "bounded_in": h.bounded or None,
                    "obligation_names": {a["name"]: a["n"] for a in p["obligations"]}})
    st = [{"harness": n, "runs": r.get("runs", 0), "checks": r.get("checks", 0), "discarded": r.get("discarded", 0), "distinct": r.get("distinct", 0),
           "error": (r.get("error") or "")[-300:] or None, "samples": r.get("samples", [])[:1],
           "role": "cross-check of a proved contract" if proofs.get(n, {}).get("status") == "proved" else "bounded stand-in"} for n, r in fz.items()]
    from contracts import common
    assumptions = list(getattr(mod, "ASSUMPTIONS", [])) + [a for h in hs for a in h.assumptions] + common.BASE_ASSUMPTIONS
    proved_all = all(p["status"] == "proved" for p in proofs.values()) and proofs
    cov = {"obligations": obls, "discharged": disc, "checker_cmd": f"cd /verif && python3 check.py {pid} --tier {tier}",
           "trusted_base": common.TRUSTED, "backends": backends, "solver_s": round(sum(p["solver_s"] for p in proofs.values()), 2),
           "functions_executed_under_proof": sorted(funcs), "functions_with_contract": sorted(contract), "harnesses": per,
           "undecided_this_run": undec, "bounded": st, "bounded_runs": sum(r.get("runs", 0) for r in fz.values()),
           "evaluations": sum(r.get("runs", 0) for r in fz.values()), "distinct_nontrivial": sum(r.get("distinct", 0) for r in fz.values()),
           "rule": "random inputs per harness from VERIF_SEED satisfying the harness precondition; distinct input valuations counted",
           "samples": [s for r in fz.values() for s in r.get("samples", [])[:1]][:6]}
    level = getattr(mod, "LEVEL", "proof" if any(h.prove for h in hs) else "exploration")
    if level == "other" or level == "exploration":
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
    return {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}


if __name__ == "__main__":
    sys.exit(main())
