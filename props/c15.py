"""C15 Every activity log is well formed."""

from . import fleets, trees
from .base import *  # noqa: F401,F403


def alternate(c, seq, start, stop, what, open_ok=False):
    """start/stop alternate, stops not earlier than their start; returns the pairs."""
    open_, pairs = None, []
    for t, s in seq:
        if s == start:
            c.check(open_ is None, f"{what}: started twice without a stop between")
            if pairs:
                c.check(t >= pairs[-1][1], f"{what}: starts before its previous stop")
            open_ = t
        elif s == stop:
            if open_ is None:
                c.fail(f"{what}: a stop without a start")
                continue
            c.check(t >= open_, f"{what}: stops before it starts")
            pairs.append((open_, t))
            open_ = None
        else:
            c.fail(f"{what}: an entry that is neither start nor stop of it")
    if not open_ok:
        c.check(open_ is None, f"{what}: a start without a stop")
    return pairs


def apart(c, waits, runs, what):
    for a, b in waits:
        for x, y in runs:
            c.check(or_(b <= x, a >= y), f"{what}: a wait overlaps a run")


def of_log(c, logger, aid, what, completed=None, open_ok=False):
    """The entries one activity made on one log."""
    mine = [(t, s, lab) for t, a, s, o, lab in entries(logger) if a == aid]
    plain = [(t, s) for t, s, lab in mine if not lab or lab.get("type") == "additional log"]
    runs = alternate(c, [x for x in plain if x[1] in ("START", "STOP")], "START", "STOP", what,
                     open_ok)
    waits = alternate(c, [x for x in plain if x[1] not in ("START", "STOP")], "WAIT_START",
                      "WAIT_STOP", what + " (wait)")
    apart(c, waits, runs, what)
    if waits:
        c.cover("waits")
    # entries with a label: parts of a structure, plugins
    refs = []
    for t, s, lab in mine:
        if lab and lab.get("type") != "additional log":
            k = (lab.get("type"), lab.get("ref"))
            if k not in refs:
                refs.append(k)
    for k in refs:
        es = [(t, s) for t, s, lab in mine if lab and (lab.get("type"), lab.get("ref")) == k]
        if k[0] == "plugin":
            w = alternate(c, es, "WAIT_START", "WAIT_STOP", what + " (plugin)", open_ok)
            apart(c, w, runs, what + " (plugin)")
            apart(c, w, waits, what + " (plugin)")
            c.cover("plugin")
        elif k[0] == "subprocess":
            if any(s.startswith("WAIT") for _, s in es):
                w = alternate(c, es, "WAIT_START", "WAIT_STOP", what + " (wait)")
            else:
                p = alternate(c, es, "START", "STOP", what + " (part)", open_ok)
                if len(runs) and not open_ok:
                    for a, b in p:
                        c.check(or_(*[and_(a >= x, b <= y) for x, y in runs]),
                                f"{what}: a part is recorded outside the run")
        else:
            c.fail(f"{what}: an entry of unknown kind")
    if completed is not None:
        c.check(len(runs) == completed, f"{what}: not exactly one start and stop per completed run")
    return runs


def whole(c, e, tops, objs, count, stopped=False):
    acts = model.get_subprocesses(tops)
    ids = {a.id: a for a in acts}
    for a in acts:
        kind = type(a).__bases__[-1].__name__
        done = None if stopped or count is None else count(a)
        of_log(c, a, a.id, f"log of a {kind}", done, stopped)
        for t, aid, s, o, lab in entries(a):
            c.check(aid == a.id, "an activity logs under another identity")
    for o in objs:
        for aid in dict.fromkeys(x[1] for x in entries(o)):
            if aid in ids:
                runs = of_log(c, o, aid, "log of an object", None, stopped)
                n = len([1 for t, s in own(ids[aid]) if s == "STOP"])
                if not stopped:
                    c.check(len(runs) == n, "log of an object: not one start and stop per run")
            else:
                c.fail("an object logs under an unknown identity")
    c.cover("stopped" if stopped else "whole")


def fleetwise(c, builder, **b):
    e, objs, shifts, tops, ids = builder(c, **b)
    acts = model.get_subprocesses(tops)
    extra = []
    for a in acts:
        for o in (getattr(a, "processor", None), getattr(a, "mover", None)):
            if o is not None and not any(o is x for x in extra + objs):
                extra.append(o)
    model.register_processes(tops)
    stopped = False
    try:
        run(c, e)
    except ValueError:
        stopped = True
    if not stopped and not all(is_finished(t) for t in tops):
        stopped = True  # opposite shifts that block each other, see C08
    whole(c, e, tops, objs + extra, None, stopped)


def of(builder):
    return lambda c, **b: fleetwise(c, builder, **b)


def tree(c, waits=False, dmax=2, small=True, logs=False):
    e = Env(max_steps=2500)
    objs = []
    table = trees.with_waits(c) if waits else trees.shapes(small)
    which = c.choice("shape", list(table))
    t = trees.Tree(c, table[which], e, {}, dmax=dmax)
    model.register_processes([t.top])
    run(c, e)
    t.expect()
    byid = {t.acts[n].id: n for n in t.order}
    whole(c, e, [t.top], objs, lambda a: len(t.runs[byid[a.id]]))


def objects(c, dmax=2, tmax=2):
    """Moves and shifts that wait (start conditions, resources, plugins), with extra logs."""
    e = Env(max_steps=1500)
    reg = {}
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=20, level=10), site(e, "B", capacity=20)
    v = vessel(e, "v", capacity=6, level=2)

    class DMove(plugins.HasDelayPlugin, Move):
        pass

    class DShift(plugins.HasDelayPlugin, Shift):
        pass

    class DBas(plugins.HasDelayPlugin, Basic):
        pass

    pct = c.choice("percent", [None, 0, 50])
    at = c.int("at", 0, 2 * tmax)
    tm = {"type": "time", "start_time": at}
    d = [c.int(f"d{i}", 0, dmax) for i in range(4)]
    m = DMove(name="m", mover=v, destination=A, duration=d[0], delay_percentage=pct, **kw)
    s = DShift(name="s", processor=v, origin=A, destination=v, duration=d[1], amount=2,
               delay_percentage=pct, start_event=[tm] if c.flag("shift waits") else None, **kw)
    u = DBas(name="u", duration=d[2], start_event=tm, additional_logs=[v, B],
             delay_percentage=pct, **kw)
    o = Shift(name="o", processor=cranes(e, ["c"])[0], origin=A, destination=B, duration=d[3],
              amount=1, **kw)
    w = Basic(name="w", duration=c.int("t", 0, tmax), additional_logs=[A], **kw)
    tops = [Repeat(name="r", repetitions=2, sub_processes=[m, s], **kw),
            Seq(name="q", sub_processes=[w, o, u], **kw)]
    model.register_processes(tops)
    run(c, e)
    whole(c, e, tops, [A, B, v], lambda a: 2 if a.name in "ms" else 1)


SCENARIOS = [
    Scenario("fleet", of(fleets.fleet), quick=dict(sym=(0, 2), amax=2, lbmax=0),
             thorough=dict(trips=2, sym=(0, 1, 2)), covers=["whole", "stopped"],
             what="two vessels between two shared sites"),
    Scenario("cross", of(fleets.cross), quick=dict(n=2), thorough=dict(n=3),
             covers=["whole"], what="shifts in both directions"),
    Scenario("loop", of(fleets.loop), quick=dict(), thorough=dict(amax=5, big=10),
             covers=["whole"], what="loop until empty or full"),
    Scenario("trees", tree, quick=dict(small=False), thorough=dict(dmax=6, small=False),
             covers=["whole"], what="nested structures"),
    Scenario("waits", tree, quick=dict(waits=True), thorough=dict(waits=True, dmax=6),
             covers=["whole", "waits", "plugin"], what="with start times and delays"),
    Scenario("objects", objects, quick=dict(), thorough=dict(dmax=4, tmax=4),
             covers=["whole", "waits", "plugin"], what="moves, shifts and extra logs that wait"),
]
