"""C01 Material conservation."""

from . import fleets
from .base import *  # noqa: F401,F403


def account(c, e, objs, shifts, tops, ids):
    """Runs and compares, per shift, what was taken with what was delivered."""
    total = {i: sum(level(o, i) for o in objs) for i in ids}
    start = snapshot(objs, ids)
    taken = {k: [] for k in start}  # amounts leaving / entering a container, in order
    added = {k: [] for k in start}

    def changes(before, after):
        for k in before:
            x, y = before[k], after[k]
            if x is y:
                continue
            if y < x:
                taken[k].append(x - y)
            elif y > x:
                added[k].append(y - x)

    inst = Instants(e, objs, ids, on_step=changes)
    model.register_processes(tops)
    stopped = False
    try:
        run(c, e)
    except ValueError:
        stopped = True
        inst.step()
        c.cover("nothing to shift")
    if not stopped:
        for a in shifts:
            iv, ns, ne = intervals(a[0])
            c.check(ns == ne, "a shift was started and not finished")
        for i in ids:
            c.check(sum(level(o, i) for o in objs) == total[i],
                    "material was created or lost over the simulation")
        c.cover("quiescent")
    # what each run of a shift took and delivered, by the order on the objects' logs
    outs = {a[0].id: [] for a in shifts}
    ins = {a[0].id: [] for a in shifts}
    for o in objs:
        for i in ids:
            from_o = {a[0].id for a in shifts if a[1] is o and a[3] == i}
            to_o = {a[0].id for a in shifts if a[2] is o and a[3] == i}
            log = entries(o)
            st = [a for t, a, s, _, lab in log if s == "START" and a in from_o]
            en = [a for t, a, s, _, lab in log if s == "STOP" and a in to_o]
            k = (o.name, i)
            if not stopped:
                c.check(len(st) == len(taken[k]) and len(en) == len(added[k]),
                        "a container changed by something else than the shifts from and to it")
            for a, x in zip(st, taken[k]):
                outs[a].append(x)
            for a, x in zip(en, added[k]):
                ins[a].append(x)
    for act, org, dst, i in shifts:
        if outs[act.id]:
            c.cover("shifted")
        if len(outs[act.id]) > len(ins[act.id]):
            c.cover("in transit")
        for x, y in zip(outs[act.id], ins[act.id]):
            c.check(x == y, "a shift delivers another amount than it took")


def of(builder):
    return lambda c, **b: account(c, *builder(c, **b))


SCENARIOS = [
    Scenario("fleet", of(fleets.fleet), quick=dict(sym=(0, 2)),
             thorough=dict(trips=2, sym=(0, 1, 2)),
             covers=["shifted", "quiescent", "nothing to shift", "in transit"],
             what="two vessels sail, load, sail, unload between two shared sites"),
    Scenario("cross", of(fleets.cross), quick=dict(n=2), thorough=dict(n=3),
             covers=["shifted", "quiescent"], what="shifts in both directions"),
    Scenario("chain", of(fleets.chain), quick=dict(tmax=1), thorough=dict(),
             covers=["shifted", "quiescent"], what="shifts into and out of a stock"),
    Scenario("multi", of(fleets.multi), quick=dict(tmax=1), thorough=dict(amax=4, tmax=2),
             covers=["shifted", "quiescent"], what="two materials at once"),
    Scenario("loop", of(fleets.loop), quick=dict(), thorough=dict(amax=5, big=10),
             covers=["shifted", "quiescent"], what="loop until empty or full"),
    Scenario("quay", of(fleets.quay), quick=dict(), thorough=dict(amax=4, tmax=3), covers=["shifted", "quiescent"],
             what="sites with two places"),
    Scenario("crane", of(fleets.crane), quick=dict(amax=2, dmax=1, tmax=1), thorough=dict(), covers=["shifted", "quiescent"],
             what="a shift that has to be tried again because it waited for its crane"),
    Scenario("retry", of(fleets.retry), quick=dict(amax=2), thorough=dict(), covers=["shifted", "quiescent"],
             what="a shift that has to be tried again"),
]
