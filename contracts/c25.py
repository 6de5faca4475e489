"""C25: signal statistics are the stated function of exactly the recorded samples."""
from pyvc.harness import harness
from contracts.c04 import simulate, check_content

DG = "aspsim.diagnostics.diagnostics"
DC = "aspsim.diagnostics.diagnosticscollection"


@harness(functions=[DG + ":SignalPower.save", DG + ":SignalPowerRatio.save", DC + ":SignalSummary.save"], fuzz=120, prove=False, max_fuzz_s=80)
def statistics(V):
    def check(S, files, sigs):
        for D in S.diags.values():
            check_content(V, S, D, files, sigs)
    simulate(V, ["power", "ratio", "summary_sig", "signal"], V.int("diagnostics", 1, 4), check)
