"""C07 A resource is never used by more activities than it has places."""

from . import fleets
from .base import *  # noqa: F401,F403


def users(acts):
    """object -> activities that need it."""
    r = {}
    for a in acts:
        if isinstance(a, model.MoveActivity):
            objs = [a.mover]
        elif isinstance(a, model.ShiftAmountActivity):
            objs = [a.processor, a.origin, a.destination]
        else:
            continue
        for i, o in enumerate(objs):
            if not any(o is x for x in objs[:i]):
                r.setdefault(o, []).append(a)
    return r


def spans(a, horizon, until=None):
    """Runs of an activity; one that never stopped lasts to the end."""
    st = [t for t, s in own(a) if s == "START"]
    en = [t for t, s in own(a) if s == "STOP"]
    pct = getattr(a, "_pct", 0)
    out = [(x, y + (y - x) * pct / 100) for x, y in zip(st, en)]
    return out + [(x, horizon + 1) for x in st[len(en):]]


def exclusive(c, e, acts):
    """At no moment more running activities on an object than it has places."""
    for o, us in users(acts).items():
        places = o.resource.capacity
        iv = [(a, x, y) for a in us for x, y in spans(a, e.now)]
        if len(iv) <= places:
            continue
        for i, (a, x, y) in enumerate(iv):
            if not x < y:
                continue
            # at moment x: those that have begun (the earlier listed first at a tie) and not ended
            n = 1
            for j, (b, u, v) in enumerate(iv):
                if j != i and u < v and x < v and (u < x or (u == x and j < i)):
                    n += 1
                    c.cover("busy")
            c.check(n <= places, f"an object with {'one place' if places == 1 else 'several places'}"
                                 " is used by more activities than it has places")
            if places > 1 and n == places:
                c.cover("full")


def fleetwise(c, builder, **b):
    e, objs, shifts, tops, ids = builder(c, **b)
    acts = model.get_subprocesses(tops)
    model.register_processes(tops)
    try:
        run(c, e)
    except ValueError:
        c.cover("refused")
    exclusive(c, e, acts)
    if any(s == "STOP" for a in acts for t, s in own(a)):
        c.cover("ran")


def of(builder):
    return lambda c, **b: fleetwise(c, builder, **b)


def quay(c, n=3, places=2, dmax=3, tmax=2, crane=False):
    """Several shifts to and from a site with several places, cranes shared or not."""
    e = Env(max_steps=1500)
    reg = {}
    kw = dict(env=e, registry=reg)
    Q = site(e, "Q", capacity=40, level=20, nr=places)
    shared = Crane(env=e, name="shared", geometry=P0, loading_rate=1, unloading_rate=1,
                   nr_resources=places)
    tops = []
    for i in range(n):
        S = site(e, f"S{i}", capacity=9, level=5)
        cr = shared if crane else cranes(e, [f"c{i}"])[0]
        out = c.flag(f"out{i}") if i else False
        s = Shift(name=f"s{i}", processor=cr, origin=Q if out else S, destination=S if out else Q,
                  duration=c.int(f"d{i}", 1, dmax), amount=1 + i % 2, **kw)
        w = Basic(name=f"w{i}", duration=c.int(f"t{i}", 0, tmax) if i else 0, **kw)
        tops.append(Seq(name=f"q{i}", sub_processes=[w, s], **kw))
    model.register_processes(tops)
    run(c, e)
    acts = model.get_subprocesses(tops)
    exclusive(c, e, acts)
    if all(is_finished(t) for t in tops):
        c.cover("ran")


def crowd(c, dmax=2, tmax=2):
    """One vessel wanted by activities in different structures, with delays."""
    e = Env(max_steps=1500)
    reg = {}
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=20, level=10), site(e, "B", capacity=20)
    v = vessel(e, "v", capacity=20, level=5)
    d = [c.int(f"d{i}", 1, dmax) for i in range(4)]
    t = [c.int(f"t{i}", 0, tmax) for i in range(2)]
    pct = c.choice("delay", [0, 100])

    class DMove(plugins.HasDelayPlugin, Move):
        pass

    m0 = DMove(name="m0", mover=v, destination=B, duration=d[0],
               delay_percentage=pct if pct else None, **kw)
    m0._pct = pct
    back = Move(name="m1", mover=v, destination=A, duration=d[1], **kw)
    lo = Shift(name="lo", processor=v, origin=A, destination=v, duration=d[2], amount=2, **kw)
    un = Shift(name="un", processor=v, origin=v, destination=A, duration=d[3], amount=1, **kw)
    how = c.choice("structure", ["loop", "parallel", "tops"])
    if how == "loop":
        tops = [Repeat(name="r", repetitions=2, sub_processes=[lo], **kw),
                Seq(name="s", sub_processes=[Basic(name="w", duration=t[0], **kw), un], **kw)]
        acts = [lo, un]
    elif how == "parallel":
        par = Par(name="p", sub_processes=[
            lo, Seq(name="s", sub_processes=[Basic(name="w", duration=t[0], **kw), un], **kw)], **kw)
        tops = [par]
        acts = [lo, un]
    else:
        tops = [Seq(name="s", sub_processes=[Basic(name="w", duration=t[0], **kw), m0], **kw),
                Seq(name="q", sub_processes=[Basic(name="x", duration=t[1], **kw), back], **kw)]
        acts = [m0, back]
    model.register_processes(tops)
    run(c, e)
    exclusive(c, e, acts)
    if all(intervals(a)[2] for a in acts):
        c.cover(how)


SCENARIOS = [
    Scenario("fleet", of(fleets.fleet), quick=dict(sym=(0, 2), amax=2, lbmax=0),
             thorough=dict(trips=2, sym=(0, 1, 2, 3)), covers=["ran", "refused"],
             what="two vessels sail, load, sail, unload between two shared sites"),
    Scenario("cross", of(fleets.cross), quick=dict(n=3, amax=2),
             thorough=dict(n=3, tmax=2),
             covers=["ran"], what="three shifts in both directions"),
    Scenario("chain", of(fleets.chain), quick=dict(tmax=1), thorough=dict(),
             covers=["ran"], what="shifts into and out of a stock, a shared crane"),
    Scenario("quay", quay, quick=dict(), thorough=dict(n=4, tmax=3),
             covers=["ran", "busy", "full"], what="a site with two places"),
    Scenario("places", quay, quick=dict(n=4, places=3, dmax=1, tmax=1), thorough=dict(n=5, places=4, dmax=2),
             covers=["ran", "busy", "full"], what="a site with more places"),
    Scenario("cranes", quay, quick=dict(n=3, crane=True, dmax=2, tmax=1),
             thorough=dict(n=4, crane=True, places=3),
             covers=["ran", "busy", "full"], what="a crane with several places"),
    Scenario("crowd", crowd, quick=dict(), thorough=dict(dmax=4, tmax=4),
             covers=["loop", "parallel", "tops"],
             what="one vessel wanted by activities in different structures"),
    Scenario("crane", of(fleets.crane), quick=dict(amax=2, dmax=1, tmax=1), thorough=dict(), covers=["ran"],
             what="a shift that has to be tried again because it waited for its crane"),
    Scenario("retry", of(fleets.retry), quick=dict(amax=2), thorough=dict(), covers=["ran"],
             what="a shift that has to be tried again"),
    Scenario("groups", of(fleets.groups), quick=dict(), thorough=dict(dmax=3, tmax=4), covers=["ran"],
             what="groups that share their claims"),
]
