"""C13 Time advances exactly by the planned durations."""

from . import fleets, trees
from .base import *  # noqa: F401,F403


def planned(c, dmax=3, small=True, waits=False, frac=False):
    """Every activity takes its duration, the whole takes sum / maximum."""
    t0 = c.int("t0", 0, 5)
    e = Env(initial_time=t0, max_steps=2500)
    table = trees.shapes(small)
    which = c.choice("shape", list(table))
    spec = table[which]
    durations = None
    if frac:
        names = []

        def walk(s):
            if s[0] == "leaf":
                names.append(s[1])
            else:
                for x in (s[3] if s[0] == "rep" else s[2]):
                    walk(x)
        walk(spec)
        durations = {n: c.num("d_" + n, 0, dmax, denom=8) for n in names}
    t = trees.Tree(c, spec, e, {}, dmax=dmax, durations=durations)
    model.register_processes([t.top])
    run(c, e)
    end = t.expect(t0)
    for n in t.order:
        got = t.actual(n)
        c.check(len(got) == len(t.runs[n]), "an activity does not run as often as planned")
        for (a, b), (_, x, y, _) in zip(got, t.runs[n]):
            if t.spec[n][0] == "leaf":
                c.check(b - a == t.dur[n], "an activity does not take its planned duration")
            c.check(and_(a == x, b == y), "an activity runs at other times than planned")
    c.check(e.now == end, "the project does not take the sum / maximum of its durations")
    c.cover("run")


def long(c, big=(3600, 86400, 10 * 86400)):
    """Activities of hours and days, to the eighth of a second."""
    t0 = c.int("t0", 0, 10 ** 9)
    e = Env(initial_time=t0, max_steps=200)
    kw = dict(env=e, registry={})
    A, B = site(e, "A", capacity=20, level=10), site(e, "B", capacity=20)
    v = vessel(e, "v", capacity=5)
    kind = c.choice("kind", ["basic", "move", "shift", "time"])
    d = c.choice("about", list(big)) * c.choice("times", [1, 3]) + c.num("more", 0, 100)
    at = {}
    if kind == "time":
        at["start_event"] = [{"type": "time", "start_time": t0 + d}]
    a = (Move(name="a", mover=v, destination=B, duration=d, **kw) if kind == "move" else
         Shift(name="a", processor=v, origin=A, destination=v, duration=d, amount=1, **kw)
         if kind == "shift" else Basic(name="a", duration=d, **at, **kw))
    b = Basic(name="b", duration=d, **kw)
    model.register_processes([Seq(name="s", sub_processes=[a, b], **kw)])
    run(c, e)
    n = 3 if kind == "time" else 2
    c.check(e.now == t0 + n * d, "an activity of hours or days does not take its planned duration")
    for x, y in ((a, t0 + (n - 1) * d), (b, t0 + n * d)):
        iv = intervals(x)[0]
        c.check(len(iv) == 1 and bool(and_(iv[0][0] == y - d, iv[0][1] == y)),
                "an activity of hours or days runs at other times than planned")
    c.cover(kind)


def kinds(c, dmax=3):
    """Moves and shifts with given durations, one after the other."""
    t0 = c.int("t0", 0, 5)
    e = Env(initial_time=t0, max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=20, level=10), site(e, "B", capacity=20, geometry=P1)
    v = vessel(e, "v", capacity=c.int("cap", 1, 5))
    dm = [c.num(f"m{i}", 0, dmax) for i in range(2)]
    ds = [c.num(f"s{i}", 0, dmax) for i in range(2)]
    n = c.choice("trips", [1, 2])
    a0 = c.int("amount", 1, 5)
    subs = [Move(name="m0", mover=v, destination=A, duration=dm[0], **kw),
            Shift(name="s0", processor=v, origin=A, destination=v, duration=ds[0], amount=a0, **kw),
            Move(name="m1", mover=v, destination=B, duration=dm[1], **kw),
            Shift(name="s1", processor=v, origin=v, destination=B, duration=ds[1], **kw)]
    top = Repeat(name="r", repetitions=n, sub_processes=subs, **kw)
    model.register_processes([top])
    run(c, e)
    t = t0
    want = {s.name: [] for s in subs}
    for _ in range(n):
        for s, d in zip(subs, (dm[0], ds[0], dm[1], ds[1])):
            want[s.name].append((t, t + d))
            t = t + d
    for s in subs:
        got, ns, ne = intervals(s)
        c.check(ns == n and ne == n, "an activity does not run as often as planned")
        for g, w in zip(got, want[s.name]):
            c.check(and_(g[0] == w[0], g[1] == w[1]), "a move or shift does not take its duration")
    c.check(e.now == t, "the project does not take the sum of its durations")
    c.cover("run")


def logs_of(objs):
    r = []
    for o in objs:
        for en in o.logbook:
            st = {k: v for k, v in en["ObjectState"].items() if k != "geometry"}
            g = en["ObjectState"].get("geometry")
            r.append((senv.seconds(en["Timestamp"]), en["ActivityState"],
                      st.get("container level"), None if g is None else (g.x, g.y)))
    return r


def moved(c, builder, tshift=(1, 86400), **b):
    """The same plan at another start time: everything moves along with it."""
    m = Memo(c)
    t0 = c.int("t0", *tshift)
    out = []
    for k in (0, t0):
        mm = m.again(k)
        e, objs, shifts, tops, ids = builder(mm, **b)
        acts = model.get_subprocesses(tops)
        model.register_processes(tops)
        stopped = False
        try:
            run(c, e)
        except ValueError:
            stopped = True
        out.append((stopped, e.now, logs_of(acts + objs), snapshot(objs, ids)))
    (s0, n0, l0, v0), (s1, n1, l1, v1) = out
    c.check(s0 == s1, "another outcome at another start time")
    c.check(len(l0) == len(l1), "another number of log entries at another start time")
    c.check(n1 == n0 + t0, "the end does not move along with the start")
    for x, y in zip(l0, l1):
        c.check(y[0] == x[0] + t0, "an event does not move along with the start")
        c.check(x[1] == y[1] and x[3] == y[3], "a log entry differs at another start time")
        if x[2] is not None and not isinstance(x[2], dict):
            c.check(x[2] == y[2], "a logged level differs at another start time")
    for k in v0:
        c.check(v0[k] == v1[k], "a level differs at another start time")
    c.cover("refused" if s0 else "compared")


def of(builder):
    return lambda c, **b: moved(c, builder, **b)


def tree_times(c, dmax=3, **b):
    """Trees with start times in them, all moved."""
    m = Memo(c)
    t0 = c.int("t0", 1, 1000)
    which = c.choice("shape", ["wait in sequence", "wait in parallel", "wait in loop",
                               "structures that wait"])
    at = c.num("at", 0, 4)
    out = []
    for k in (0, t0):
        mm = m.again(k, num=lambda name, lo, hi, **k2: (at + k if name == "at" else m.num(name, lo, hi, **k2)))
        e = Env(initial_time=k, max_steps=2500)
        t = trees.Tree(mm, trees.with_waits(mm)[which], e, {}, dmax=dmax)
        model.register_processes([t.top])
        run(c, e)
        out.append((e.now, [own(t.acts[n]) for n in t.order]))
    c.check(out[1][0] == out[0][0] + t0, "the end does not move along with the start")
    for x, y in zip(out[0][1], out[1][1]):
        c.check(len(x) == len(y), "another number of log entries at another start time")
        for (t, s), (u, r) in zip(x, y):
            c.check(and_(u == t + t0, s == r), "an event does not move along with the start")
    c.cover("compared")


SCENARIOS = [
    Scenario("planned", planned, quick=dict(small=False), thorough=dict(dmax=9, small=False),
             covers=["run"], what="nested structures, whole durations"),
    Scenario("fractions", planned, quick=dict(frac=True), thorough=dict(dmax=9, frac=True, small=False),
             covers=["run"], what="nested structures, durations in eighths of a second"),
    Scenario("long", long, quick=dict(), thorough=dict(big=(60, 3600, 86400, 10 * 86400, 400 * 86400)),
             covers=["basic", "move", "shift", "time"], what="activities of hours and days"),
    Scenario("kinds", kinds, quick=dict(), thorough=dict(dmax=9), covers=["run"],
             what="moves and shifts"),
    Scenario("moved fleet", of(fleets.fleet), quick=dict(nv=2, amax=2, dmax=2),
             thorough=dict(nv=2, sym=(0, 2)), covers=["compared", "refused"],
             what="the same fleet plan at another start time"),
    Scenario("moved loop", of(fleets.loop), quick=dict(big=4), thorough=dict(big=8),
             covers=["compared"], what="the same loop at another start time"),
    Scenario("moved tree", tree_times, quick=dict(), thorough=dict(dmax=6), covers=["compared"],
             what="the same tree with start times at another start time"),
]
