"""C19: event counter."""
from pyvc.harness import harness

NAMES = ["a", "b", "c"]
FUN = ["aspsim.counter:EventCounter.__init__", "aspsim.counter:EventCounter.progress", "aspsim.counter:EventCounter._check_events",
       "aspsim.counter:EventCounter.add_event"]


def events(V, n, later):
    """n events given at construction, `later` more added before some step"""
    ev = [(V.int(f"freq{i}", 1, near=4), V.int(f"offset{i}", near=0)) for i in range(n + later)]
    c = V.mod("aspsim.counter").EventCounter(V.mkdict([(NAMES[i], ev[i]) for i in range(n)]))
    before = V.int("before", 0, near=10)
    V.require_small(before)

    def step(first, cnt):
        def f(k):
            c.progress()
            i = first + k + 1
            for j in range(cnt):
                V.ensure(V.iff(NAMES[j] in c.event, (i - ev[j][1]) % ev[j][0] == 0), "an event is signalled exactly at steps i with (i - offset) % frequency == 0")
            V.ensure(len(c.event) == sum(1 for q in NAMES if q in c.event), "no event is signalled twice or under another name")
        return f
    V.loop(before, step(0, n), "steps before adding")
    if later:
        for i in range(n, n + later):
            c.add_event(NAMES[i], *ev[i])
        after = V.int("after", 0, near=20)
        V.require_small(after)
        V.loop(after, step(before, n + later), "steps after adding")


def mk(n, later):
    def f(V):
        events(V, n, later)
    f.__name__ = f"events_{n}_{later}"
    return harness(functions=FUN, fuzz=300, bounded=f"{n + later} events (all frequencies, offsets and numbers of steps)")(f)


HARNESSES = [mk(0, 0), mk(1, 0), mk(2, 0), mk(3, 0), mk(1, 1), mk(0, 2)]
ASSUMPTIONS = ["frequencies are positive", "at most 3 events in the proved obligations"]
