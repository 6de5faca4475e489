"""C05: every diagnostic is exported exactly once per requested export index."""
from pyvc.harness import harness
from contracts.c04 import simulate

CO = "aspsim.diagnostics.core"


@harness(functions=[CO + ":Logger.dispatch", CO + ":Logger.export_this_idx", CO + ":Logger.export_single_diag", CO + ":IndexCounter", CO + ":Diagnostic.progress_export"], fuzz=150, prove=False, max_fuzz_s=80)
def export_schedule(V):
    def check(S, files, sigs):
        want = set()
        for D in S.diags.values():
            got = [(n, i) for n, _, i in [(x[0], x[1], x[2]) for x in D["log"]]]
            V.ensure([i for _, i in got] == D["exports"], "each diagnostic once for each export index, in increasing order", f"{D['name']} {[i for _, i in got]} instead of {D['exports']}")
            V.ensure(all(n >= i for n, i in got), "not before the index is reached")
            V.ensure(all(x[1] == D["name"] for x in D["log"]), "under its own name")
            want |= {f"{D['name']}_{e}" for e in D["exports"]}
        names = {f.rsplit(".", 1)[0] for f in files}
        V.ensure(names == want, "exactly one file for each diagnostic and export index", f"{sorted(names)} instead of {sorted(want)}")
    simulate(V, ["signal", "channels", "power", "state", "statevec", "filter", "summary_sig"], V.int("diagnostics", 1, 5), check)
