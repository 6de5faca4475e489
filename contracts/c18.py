"""C18: phase counter."""
from pyvc.harness import harness

NAMES = ["a", "b", "c", "d"]


def run_phases(V, kinds):
    """kinds: for each phase 'fin' (symbolic length >= 0) or 'inf'"""
    inf = float("inf")
    lens = [V.int(f"len{i}", 0) if k == "fin" else inf if k == "inf" else -1 for i, k in enumerate(kinds)]
    V.require_small(*[l for l in lens if l != inf])
    PC = V.mod("aspsim.counter").PhaseCounter
    pc = PC(V.mkdict(list(zip(NAMES, lens))), verbose=V.choice("verbose", [False, True]))
    first = True
    for name, L in zip(NAMES, lens):
        if isinstance(L, (int, float)) and (L == inf or L < 0):
            n = V.int("steps", 0)
            last = True
        else:
            if V.split(L == 0):
                continue
            n, last = L - 1, False
        if not first:
            pc.progress()
        first = False
        check(V, pc, name, True)

        def step(k):
            pc.progress()
            check(V, pc, name, False)
        V.loop(n, step, f"steps in {name}")
        if last:
            return
        check_current(V, pc, name)
    # all phases are finished
    if first:
        V.ensure(pc.phase is None, "no phase is current when all phases are empty")
        return
    pc.progress()
    V.ensure(pc.phase is None, "no phase is current after the last finite phase")

    def after(k):
        pc.progress()
        V.ensure(pc.phase is None, "no phase is current after the last finite phase")
        for q in NAMES:
            V.ensure(V.not_(pc.current_phase_is(q)), "no phase query is true after the last phase")
    V.loop(V.int("after", 0), after, "steps after the end")


def check(V, pc, name, is_first):
    check_current(V, pc, name)
    V.ensure(pc.first_sample if is_first else V.not_(pc.first_sample), "first_sample is true exactly in the first step of a phase")


def check_current(V, pc, name):
    V.ensure(pc.phase == name, "phase is the phase the step lies in")
    for q in NAMES:
        r = pc.current_phase_is(q)
        V.ensure(r if q == name else V.not_(r), "current_phase_is is true exactly for the current phase")


def mk(kinds, fuzz):
    def f(V):
        run_phases(V, kinds)
    f.__name__ = "phases_" + ("_".join(kinds) or "none")
    return harness(functions=["aspsim.counter:PhaseCounter.__init__", "aspsim.counter:PhaseCounter.progress",
                              "aspsim.counter:PhaseCounter.next_phase", "aspsim.counter:PhaseCounter.current_phase_is"],
                   fuzz=fuzz, bounded=f"{len(kinds)} phases (all lengths and all numbers of steps)")(f)


HARNESSES = [mk(k, 150) for k in ([], ["fin"], ["inf"], ["neg"], ["fin", "fin"], ["fin", "inf"], ["fin", "fin", "fin"], ["fin", "fin", "inf"],
                                  ["fin", "inf", "fin"], ["fin", "fin", "neg"], ["fin", "fin", "fin", "fin"])]

ASSUMPTIONS = ["the number of phases is at most 4 in the proved obligations (lengths and numbers of steps are unbounded)"]
