"""C17 What an activity does is mirrored on the objects involved."""

from . import fleets, trees
from .base import *  # noqa: F401,F403


def concerned(a):
    if isinstance(a, model.MoveActivity):
        objs = [a.mover]
    elif isinstance(a, model.ShiftAmountActivity):
        objs = [a.processor, a.origin, a.destination]
    else:
        objs = []
    r = []
    for o in objs:
        if not any(o is x for x in r):
            r.append(o)
    return r


def mirrored(c, acts, objs, stopped=False):
    for a in acts:
        mine = [(t, s) for t, s in own(a) if s in ("START", "STOP")]
        where = concerned(a)
        for o in objs:
            seen = [(t, s) for t, aid, s, st, lab in entries(o) if aid == a.id and not lab
                    and s in ("START", "STOP")]
            if any(o is x for x in where):
                c.check(len(seen) == len(mine) or stopped,
                        "an object does not show each run of an activity once")
                for (t, s), (u, r) in zip(mine, seen):
                    c.check(s == r, "an object shows another order of starts and stops")
                    c.check(t == u, "an object shows a run at another time")
                c.cover(type(a).__bases__[-1].__name__)
            else:
                c.check(len(seen) == 0, "an object shows an activity that does not concern it")
    ids = [a.id for a in acts]
    for o in objs:
        for t, aid, s, st, lab in entries(o):
            if not lab:
                c.check(aid in ids, "an object shows an entry of no activity")


def fleetwise(c, builder, **b):
    e, objs, shifts, tops, ids = builder(c, **b)
    acts = model.get_subprocesses(tops)
    objs = list(objs)
    for a in acts:
        for o in concerned(a):
            if not any(o is x for x in objs):
                objs.append(o)
    model.register_processes(tops)
    stopped = False
    try:
        run(c, e)
    except ValueError:
        stopped = True
        c.cover("refused")
    mirrored(c, acts, objs, stopped)


def of(builder):
    return lambda c, **b: fleetwise(c, builder, **b)


def namesakes(c, dmax=2):
    """Objects that carry the same name are still different objects."""
    e = Env(max_steps=600)
    kw = dict(env=e, registry={})
    n = c.choice("names", [("x", "x", "c"), ("x", "y", "x"), ("x", "y", "y"), ("x", "x", "x"),
                           ("x", "y", "c")])
    A = site(e, n[0], capacity=9, level=c.int("levelA", 1, 9))
    B = site(e, n[1], capacity=9)
    v = vessel(e, n[2], capacity=9)
    kind = c.choice("processor", ["crane", "origin", "destination"])
    cr = cranes(e, [n[2]])[0] if kind == "crane" else v
    o, d = (A, B) if kind == "crane" else (v, B) if kind == "origin" else (A, v)
    if kind == "origin":
        v.container.put(4)
    s = Shift(name="s", processor=cr, origin=o, destination=d, amount=c.int("amount", 1, 4),
              duration=c.int("d", 0, dmax), **kw)
    m = Move(name="m", mover=v, destination=B, duration=c.int("t", 0, dmax), **kw)
    model.register_processes([Repeat(name="r", sub_processes=[m, s], repetitions=1, **kw)])
    run(c, e)
    mirrored(c, [m, s], [A, B, v] + ([cr] if kind == "crane" else []))
    c.cover(kind)


def places(c, n=3, dmax=3):
    """A crane or vessel with several places does several things at once."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    kind = c.choice("processor", ["crane", "vessel", "group"])
    nr = c.choice("places", [2, 3])
    if kind == "vessel":
        p = vessel(e, "v", capacity=30, level=6, nr_resources=nr)
    else:
        p = cranes(e, ["c"], nr_resources=1 if kind == "group" else nr)[0]
    claims = {"requested_resources": {}} if kind == "group" else {}
    sites, acts, objs = [], [], [p]
    for i in range(n):
        d = c.int(f"d{i}", 1, dmax)
        if kind == "vessel" and i == n - 1:
            to = site(e, "T", capacity=9, geometry=P0)
            a = Move(name="m", mover=p, destination=to, duration=d, **kw)
            objs.append(to)
        else:
            A, B = site(e, f"A{i}", capacity=9, level=5), site(e, f"B{i}", capacity=9)
            objs += [A, B]
            o = p if kind == "vessel" and c.flag(f"out{i}") else A
            a = Shift(name=f"s{i}", processor=p, origin=o, destination=B, amount=2, duration=d,
                      start_event=[{"type": "time", "start_time": c.int(f"t{i}", 0, 2)}], **claims, **kw)
        acts.append(a)
    model.register_processes(acts)
    run(c, e)
    mirrored(c, acts, objs)
    c.cover(kind)


def extra(c, dmax=2, tmax=3):
    """Additional logs receive starts, stops and waits."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=9), site(e, "B", capacity=9)
    other = Basic(name="other", duration=c.int("other", 0, tmax), **kw)
    n = c.choice("logs", [1, 2, 3])
    logs = [A, other, B][:n]
    where = c.choice("turn", ["alone", "sequence", "loop"])
    cond = c.choice("condition", [None, {"type": "time", "start_time": c.int("at", 0, tmax)},
                                  {"type": "activity", "state": "done", "name": "other"}])
    a = Basic(name="a", duration=c.int("d", 0, dmax), start_event=cond, additional_logs=logs, **kw)
    w = Basic(name="w", duration=c.int("t", 0, tmax), **kw)
    if where == "alone":
        tops = [other, a]
    elif where == "sequence":
        tops = [other, Seq(name="q", sub_processes=[w, a], **kw)]
    else:
        tops = [other, Repeat(name="q", repetitions=2, sub_processes=[w, a], **kw)]
    model.register_processes(tops)
    run(c, e)
    mine = own(a)
    for o in [A, other, B]:
        seen = [(t, s, lab) for t, aid, s, st, lab in entries(o) if aid == a.id]
        if not any(o is x for x in logs):
            c.check(len(seen) == 0, "an object that is not an additional log receives entries")
            continue
        c.check(len(seen) == len(mine),
                "an additional log does not receive the starts, stops and waits")
        for (t, s), (u, r, lab) in zip(mine, seen):
            c.check(s == r and lab.get("ref") == a.id, "an additional log receives other entries")
            c.check(t == u, "an additional log receives other times")
    if any(s == "WAIT_START" for t, s in mine):
        c.cover("waited")
    c.cover(where)


def parts(c, waits=False, dmax=2, small=True):
    """A structure records the start and stop of its parts under their reference."""
    e = Env(max_steps=2500)
    table = trees.with_waits(c) if waits else trees.shapes(small)
    which = c.choice("shape", list(table))
    t = trees.Tree(c, table[which], e, {}, dmax=dmax)
    model.register_processes([t.top])
    run(c, e)
    t.expect()
    for n in t.order:
        s = t.spec[n]
        if s[0] == "leaf":
            c.check(len([1 for x in entries(t.acts[n]) if x[4] and x[4]["type"] == "subprocess"]) == 0,
                    "an activity without parts records parts")
            continue
        rec, stray = t.parts(n)
        c.check(stray == 0, "a structure records a part that it does not have")
        for k in t.subs(n):
            want = t.runs[k]
            c.check(len(rec[k][0]) == len(want) and len(rec[k][1]) == len(want),
                    "a structure does not record each run of a part once")
            for x, y, w in zip(rec[k][0], rec[k][1], want):
                c.check(x == w[0], "a structure records the start of a part at another time")
                c.check(y == w[3], "a structure records the stop of a part at another time")
        c.cover(s[0])


SCENARIOS = [
    Scenario("fleet", of(fleets.fleet), quick=dict(sym=(0, 2), amax=2, lbmax=0),
             thorough=dict(trips=2, sym=(0, 1, 2)), covers=["refused", "MoveActivity",
                                                            "ShiftAmountActivity"],
             what="two vessels between two shared sites"),
    Scenario("chain", of(fleets.chain), quick=dict(tmax=1, amax=2), thorough=dict(),
             covers=["ShiftAmountActivity"], what="shifts by cranes, into and out of a stock"),
    Scenario("multi", of(fleets.multi), quick=dict(tmax=0), thorough=dict(),
             covers=["ShiftAmountActivity"], what="two materials"),
    Scenario("loop", of(fleets.loop), quick=dict(), thorough=dict(amax=5, big=10),
             covers=["MoveActivity", "ShiftAmountActivity"], what="loop until empty or full"),
    Scenario("namesakes", namesakes, quick=dict(), thorough=dict(dmax=9),
             covers=["crane", "origin", "destination"], what="objects with the same name"),
    Scenario("places", places, quick=dict(n=3, dmax=2), thorough=dict(n=3), covers=["crane", "vessel", "group"],
             what="processors with several places"),
    Scenario("extra", extra, quick=dict(), thorough=dict(dmax=4, tmax=6),
             covers=["waited", "alone", "sequence", "loop"], what="additional logs"),
    Scenario("parts", parts, quick=dict(small=False), thorough=dict(dmax=6, small=False),
             covers=["seq", "par", "rep"], what="structures record their parts"),
    Scenario("waits", parts, quick=dict(waits=True), thorough=dict(waits=True, dmax=6),
             covers=["seq", "par", "rep"], what="with start times and delays"),
]
