"""C02 Container levels stay within 0..capacity."""

from . import fleets
from .base import *  # noqa: F401,F403


def bounds(c, e, objs, shifts, tops, ids):
    def look(before, after):
        for o in objs:
            for i in ids:
                lv = after[(o.name, i)]
                if lv is not before[(o.name, i)]:
                    c.check(and_(lv >= 0), "a container level drops below zero")
                    c.check(lv <= o.container.get_capacity(i), "a container is over its capacity")

    inst = Instants(e, objs, ids, on_step=look)
    model.register_processes(tops)
    try:
        run(c, e)
        c.cover("completed")
    except ValueError:
        c.cover("refused")
    inst.step()
    if any(intervals(a[0])[1] for a in shifts):
        c.cover("shifted")
    for a in shifts:
        if any(s == "WAIT_START" for t, s in own(a[0])):
            c.cover("waited")


class Ready(model.AbstractPluginClass):
    """Something to be done first, while everything is claimed already."""

    def __init__(self, d):
        self.d = d

    def pre_process(self, env, activity_log, activity, *a, **k):
        return activity.delay_processing(env, {"type": "plugin", "ref": "prepare"}, activity_log, self.d)

    def post_process(self, *a, **k):
        return {}


def places(c, amax=3, dmax=2):
    """Sites with two places: two shifts at the same site at once."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    which = c.choice("where", ["deliver", "take"])
    A = site(e, "A", capacity=20, level=c.int("levelA", 1, 2 * amax), nr=2)
    B = site(e, "B", capacity=c.int("capB", 1, 2 * amax) if which == "deliver" else 20, nr=2)
    cr = cranes(e, ["c0", "c1"])
    if which == "deliver":
        c.assume(level(A) == 2 * amax)
    shifts = []
    for i in range(2):
        s = Shift(name=f"s{i}", processor=cr[i], origin=A, destination=B, amount=c.int(f"a{i}", 1, amax),
                  duration=c.int(f"d{i}", 1, dmax), **kw)
        if which == "take":
            s.register_plugin(Ready(c.int(f"p{i}", 1, dmax)))
        shifts.append(s)
    before = level(A)
    worst = []

    def look():
        c.check(level(A) <= 20, "a container is over its capacity")
        c.check(level(B) >= 0, "a container level drops below zero")
        worst.append(level(B) <= B.container.get_capacity())
        worst.append(level(A) >= 0)

    e.watch.append(look)
    model.register_processes(shifts)
    try:
        run(c, e)
    except ValueError:
        c.cover("refused")
    if not and_(*worst):
        c.fail("two shifts that deliver at one site at once fill it over its capacity" if which == "deliver"
               else "two shifts that take from one site at once leave less than nothing")
        return
    if level(A) < before:
        c.cover(which)


def rush(c, n=3, amax=3, dmax=1):
    """Several shifts take from one site at the same moment, or shortly after each other."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=9, level=c.int("levelA", 1, 2 * amax), nr=c.choice("places", [1, 2, 3]))
    Bs = [site(e, f"B{i}", capacity=9) for i in range(n)]
    cr = cranes(e, [f"c{i}" for i in range(n)])
    shifts, tops = [], []
    for i in range(n):
        s = Shift(name=f"s{i}", processor=cr[i], origin=A, destination=Bs[i], duration=c.int(f"d{i}", 0, dmax),
                  amount=c.int(f"a{i}", 1, amax), **kw)
        if i and c.flag(f"turn{i}"):
            s.start_event = [{"type": "time", "start_time": 1}]
        shifts.append((s, A, Bs[i], "default"))
        tops.append(s)
    return e, [A] + Bs, shifts, tops, ("default",)


def of(builder):
    return lambda c, **b: bounds(c, *builder(c, **b))


SCENARIOS = [
    Scenario("fleet", of(fleets.fleet), quick=dict(sym=(0, 2), lbmax=2),
             thorough=dict(trips=2, sym=(0, 1, 2)), covers=["shifted", "completed", "refused"],
             what="two vessels sail, load, sail, unload between two shared sites"),
    Scenario("cross", of(fleets.cross), quick=dict(n=3, dsym=False), thorough=dict(n=3, tmax=2),
             covers=["shifted", "completed"], what="three shifts in both directions"),
    Scenario("chain", of(fleets.chain), quick=dict(tmax=1), thorough=dict(),
             covers=["shifted", "completed"], what="shifts into and out of a stock"),
    Scenario("loop", of(fleets.loop), quick=dict(amounts=(None, 2)), thorough=dict(amax=5, big=10),
             covers=["shifted", "completed"], what="loop until empty or full"),
    Scenario("rush", of(rush), quick=dict(), thorough=dict(amax=6, dmax=2), covers=["shifted", "completed", "refused"],
             what="several shifts take from one site at once"),
    Scenario("places", places, quick=dict(), thorough=dict(amax=6, dmax=4), covers=["deliver", "take"],
             what="sites with two places"),
    Scenario("crane", of(fleets.crane), quick=dict(amax=2, dmax=1, tmax=1), thorough=dict(), covers=["shifted", "completed", "refused"],
             what="a shift that has to be tried again because it waited for its crane"),
    Scenario("retry", of(fleets.retry), quick=dict(amax=2), thorough=dict(), covers=["shifted", "completed", "refused"],
             what="a shift that has to be tried again"),
]
