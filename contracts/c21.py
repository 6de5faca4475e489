"""C21: state diagnostics read the named state at the block they are due."""
from pyvc.harness import harness
from contracts.c04 import simulate, check_content

CO = "aspsim.diagnostics.core"
DG = "aspsim.diagnostics.diagnostics"


@harness(functions=[CO + ":attritemgetter", CO + ":StateDiagnostic", DG + ":RecordState.save", DG + ":RecordFilter.save", DG + ":StatePower.save", DG + ":StateComparison.save", DG + ":StateSummary.save"],
         fuzz=150, prove=False, max_fuzz_s=80)
def state_recordings(V):
    def check(S, files, sigs):
        for D in S.diags.values():
            V.ensure([x[2] for x in D["log"]] == D["exports"], "exported exactly when requested", f"{D['kind']} {[x[2] for x in D['log']]} instead of {D['exports']}")
            check_content(V, S, D, files, sigs)
    simulate(V, ["state", "statevec", "stateitem", "statemat", "statepower", "compare", "summary", "filter", "filterdiff"], V.int("diagnostics", 1, 3), check)
