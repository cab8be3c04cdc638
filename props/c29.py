"""C29 Dependencies traced in the simulator are real and complete."""

import simpy

from openclsim.critical_path.dependencies_from_simpy_step import (
    CriticalPathEnvironment, DependenciesFromSimpy)

from . import trees
from .base import *  # noqa: F401,F403


class Traced(CriticalPathEnvironment):
    """Also remembers itself who scheduled what: the oracle."""

    def __init__(self, *a, max_steps=3000, **k):
        super().__init__(*a, **k)
        self.left, self.current = max_steps, None
        self.parent = {}  # event -> the event whose handling scheduled it
        self.ends = []  # timeouts in the order in which they end

    def schedule(self, event, *a, **k):
        self.parent[event] = getattr(self, "current", None)
        super().schedule(event, *a, **k)

    def step(self):
        self.left -= 1
        if self.left < 0:
            raise StepLimit()
        if self._queue:
            self.current = self._queue[0][3]
            if isinstance(self.current, simpy.events.Timeout):
                self.ends.append((self.current, self._queue[0][0]))
        super().step()
        self.current = None


def expected(e):
    """[(cause, effect)] of time-consuming timeouts; the ends of all of them."""
    end = {}
    steps = []
    for t, at in e.ends:
        end[t] = at
        if t._delay > 0:
            steps.append(t)
    pairs = []
    real = set(steps)
    for t in steps:
        p = e.parent.get(t)
        while p is not None and p not in real:
            p = e.parent.get(p)
        if p is not None:
            pairs.append((p, t))
    return steps, pairs, end


def traced(c, e, objs, acts, t0, starts=False, critical=True):
    d = DependenciesFromSimpy(e, objs, acts)
    deps = d.get_dependency_list()
    rows = d.get_recorded_activity_df().to_dict("records")
    of = {}
    for r in rows:
        of[r["cp_activity_id"]] = (r["ActivityID"], senv.seconds(r["start_time"]), senv.seconds(r["end_time"]))
    steps, pairs, end = expected(e)
    known = {a.id for a in model.get_subprocesses(list(acts))}
    c.check(all(t.value in known for t in steps), "time passes for nobody")
    got = [(of[a], of[b]) for a, b in deps]
    want = []
    for p, t in pairs:
        x, y = (p.value, end[p] - p._delay, end[p]), (t.value, end[t] - t._delay, end[t])
        if starts:  # a start time is only a step as far as its activity waited for it
            x = next((z for z in of.values() if z[0] == x[0] and z[2] == x[2] and z[1] < z[2]), None)
            y = next((z for z in of.values() if z[0] == y[0] and z[2] == y[2] and z[1] == y[1]), None)
        if x is not None and y is not None:
            want.append((x, y))
    c.check(len(got) == len(want), "there are more or fewer dependencies than steps that set off another one")
    rest = list(want)
    for g in got:
        i = next((k for k, w in enumerate(rest) if same(g, w)), None)
        c.check(i is not None, "a dependency is not real")
        if i is None:
            return
        rest.pop(i)
        c.check(g[0][2] == g[1][1], "a dependency bridges time")
    # without gaps from the start to the end
    if not starts:
        effects = {p[1] for p in deps}
        for cp, (a, s, x) in of.items():
            if any(t.value == a and end[t] == x and t._delay == x - s for t in steps):
                c.check(s == t0 or cp in effects, "a step that does not begin at the start depends on nothing")
        c.cover(len(deps))
    if critical and deps:
        df = d.get_critical_path_df()
        crit = {r["cp_activity_id"] for r in df.to_dict("records") if r["is_critical"]}
        c.check(len(crit) > 0, "nothing is critical")
    return deps


def same(a, b):
    return all(x[0] == y[0] for x, y in zip(a, b)) and bool(
        and_(*[and_(x[1] == y[1], x[2] == y[2]) for x, y in zip(a, b)]))


def logs(objs):
    r = []
    for o in objs:
        for t, a, s, ob, lab in entries(o):
            r.append((o.name, t, s, {k: v for k, v in ob.items() if k != "geometry"}, bool(lab)))
    return r


def untouched(c, a, b, tr):
    la, lb = logs(a), logs(b)
    c.check(len(la) == len(lb), "tracing changes the logs")
    for x, y in zip(la, lb):
        c.check(x[0] == y[0] and x[2] == y[2] and x[4] == y[4], "tracing changes the logs")
        c.check(x[1] == y[1], "tracing changes the logged times")
        for k in x[3]:
            c.check(x[3][k] == y[3][k], "tracing changes the logged levels")


def fleet_plan(c, e, dmax, nv, trips, starts=False):
    kw = dict(env=e, registry={})
    As = [site(e, f"A{i}", capacity=99, level=trips) for i in range(nv)]
    if trips == 1:
        As = [site(e, "A", capacity=99, level=nv)] * nv
    B = site(e, "B", capacity=99)
    vs = [vessel(e, f"v{i}", capacity=1) for i in range(nv)]
    acts = []
    for k, (v, A) in enumerate(zip(vs, As)):
        g = lambda n, i: c.int(f"{n}{k}", i, dmax)  # noqa: E731
        subs = [Move(name=f"m{k}", mover=v, destination=A, duration=g("m", 0), **kw),
                Shift(name=f"l{k}", processor=v, origin=A, destination=v, duration=g("l", 1) if k == 0 else 1, **kw),
                Move(name=f"n{k}", mover=v, destination=B, duration=1, **kw),
                Shift(name=f"u{k}", processor=v, origin=v, destination=B, duration=g("u", 0) if k == 0 else 2, **kw)]
        if trips > 1:
            acts.append(While(name=f"w{k}", sub_processes=subs, condition_event=[
                {"type": "container", "concept": A, "state": "empty"}], **kw) if k == 0 else
                Repeat(name=f"w{k}", sub_processes=subs, repetitions=trips, **kw))
        else:
            acts.append(Seq(name=f"w{k}", sub_processes=subs, **kw))
    acts.append(Basic(name="last", duration=c.int("last", 0, 1), additional_logs=[B],
                      start_event=[{"type": "container", "concept": B, "state": "ge", "level": 1}], **kw))
    model.register_processes(acts)
    return list(dict.fromkeys(As)) + [B] + vs, acts, acts + [s for a in acts for s in getattr(a, "sub_processes", [])]


def fleet(c, dmax=2, nv=2, trips=1):
    """Vessels compete for the sites; something waits for material."""
    t0 = c.int("t0", 0, 2)
    m = Memo(c)
    e = Traced(initial_time=t0)
    objs, acts, every = fleet_plan(m, e, dmax, nv, trips)
    run(c, e)
    traced(c, e, objs, acts, t0)
    p = Env(initial_time=t0, max_steps=3000)
    objs2, acts2, every2 = fleet_plan(m.again(), p, dmax, nv, trips)
    run(c, p)
    untouched(c, objs + every, objs2 + every2, e)
    c.check(e.now == p.now, "tracing changes the end of the project")


def nested(c, dmax=2, small=True, waits=False, dlo=0):
    """Nested activities; sites on which their parts are recorded."""
    t0 = c.int("t0", 0, 1)
    table = trees.with_waits(c) if waits else trees.shapes(small)
    spec = table[c.choice("shape", list(table))]
    m = Memo(c)
    e = Traced(initial_time=t0)
    o = site(e, "o", capacity=9)
    T = trees.Tree(m, spec, e, {}, dmax=dmax, dlo=dlo)
    for n in T.order:
        if T.spec[n][0] == "leaf":
            T.acts[n].additional_logs = [o]
    model.register_processes([T.top])
    run(c, e)
    traced(c, e, [o], [T.top], t0, starts=waits)
    p = Env(initial_time=t0, max_steps=3000)
    o2 = site(p, "o", capacity=9)
    T2 = trees.Tree(m.again(), spec, p, {}, dmax=dmax, dlo=dlo)
    for n in T2.order:
        if T2.spec[n][0] == "leaf":
            T2.acts[n].additional_logs = [o2]
    model.register_processes([T2.top])
    run(c, p)
    untouched(c, [o] + list(T.acts.values()), [o2] + list(T2.acts.values()), e)


def delayed(c, dmax=3):
    """Delays are steps of their own, also when they take no time."""
    t0 = c.int("t0", 0, 1)
    e = Traced(initial_time=t0)
    kw = dict(env=e, registry={})
    o = site(e, "o", capacity=9)
    acts = []
    for k in range(2):
        acts.append(Seq(name=f"s{k}", sub_processes=[
            trees.DBasic(name=f"a{k}", duration=c.int(f"d{k}", 0, dmax), additional_logs=[o],
                         delay_percentage=c.choice(f"pct{k}", [0, 50, 100]), **kw),
            Basic(name=f"b{k}", duration=c.int(f"e{k}", 0, dmax) if k == 0 else 1, additional_logs=[o], **kw)], **kw))
    acts[1].start_event = [{"type": "activity", "name": "a0", "state": "done"}]
    model.register_processes(acts)
    run(c, e)
    traced(c, e, [o], acts, t0)


def long(c, n=150):
    """Chains of events that are longer than a recursion may be."""
    e = Traced(max_steps=20 * n)
    kw = dict(env=e, registry={})
    o = site(e, "o", capacity=9)
    top = Repeat(name="r", repetitions=n, sub_processes=[
        Basic(name="a", duration=c.int("d", 1, 3), additional_logs=[o], **kw)], **kw)
    model.register_processes([top])
    run(c, e)
    d = DependenciesFromSimpy(e, [o], [top])
    c.check(len(d.get_dependency_list()) == n - 1, "not all runs depend on the one before")


SCENARIOS = [
    Scenario("long", long, quick=dict(), thorough=dict(n=400), what="long simulations"),
    Scenario("fleet", fleet, quick=dict(dmax=2), thorough=dict(dmax=3, trips=2), covers=[],
             what="vessels that compete"),
    Scenario("loops", fleet, quick=dict(dmax=1, trips=2), thorough=dict(dmax=2, trips=3, nv=2), covers=[],
             what="loops of vessels that compete"),
    Scenario("nested", nested, quick=dict(dmax=1), thorough=dict(dmax=2, small=False), covers=[],
             what="nested activities"),
    Scenario("waits", nested, quick=dict(dmax=2, waits=True, dlo=1), thorough=dict(dmax=3, waits=True),
             covers=[], what="start times and delays"),
    Scenario("delayed", delayed, quick=dict(dmax=2), thorough=dict(dmax=4), covers=[], what="delays"),
]
