"""C27 Critical means: on a longest path through the simulation."""

import pandas as pd

import openclsim.critical_path.base_cp as bcp
import openclsim.plot.vessel_planning as vp
from openclsim.critical_path.base_cp import BaseCP
from openclsim.critical_path.simulation_graph import SimulationGraph

from .base import *  # noqa: F401,F403
from .c25 import Plain


def chains(n, deps, start=None):
    """All chains of dependent activities."""
    nxt = {i: [b for a, b in deps if a == i] for i in range(n)}
    out = []

    def walk(p):
        out.append(tuple(p))
        for j in nxt[p[-1]]:
            if j not in p:
                walk(p + [j])
    for i in range(n):
        walk([i])
    return out


def critical_formula(n, deps, dur, end):
    """For every activity: does it lie on a longest chain that ends last?"""
    ch = chains(n, deps)
    full = [c for c in ch
            if not any(b == c[0] and a not in c for a, b in deps)
            and not any(a == c[-1] and b not in c for a, b in deps)]
    ln = {c: sum((dur[i] for i in c[1:]), dur[c[0]]) for c in full}
    best = {}
    for c in full:
        best[c] = and_(*[and_(ln[d] <= ln[c], implies(ln[d] == ln[c], end[d[-1]] <= end[c[-1]]))
                         for d in full if d is not c]) if len(full) > 1 else True
    return [or_(False, *[best[c] for c in full if i in c]) for i in range(n)]


def compare(c, got, want):
    for i, w in enumerate(want):
        if i in got:
            c.check(w, "an activity that is on no longest chain is marked critical")
        else:
            c.check(not_(w), "an activity on a longest chain is not marked critical")


def frame(rows):
    return pd.DataFrame([
        dict(Activity=f"act {i}", ActivityID=f"id {i}", SimulationObject=o, start_time=s, end_time=e,
             duration=e - s, state=st, cp_activity_id=f"cp {i}") for i, o, s, e, st in rows])


def graph(c, n=4, dmax=3, span=4, zero=False, dates=False, shared=True, frac=False):
    """Any timetable with any dependencies that fit it."""
    num = (lambda k, a, b: c.num(k, a, b, denom=4)) if frac else c.int
    s = [num(f"start{i}", 0, span) if i else 0 for i in range(n)]
    d = [num(f"dur{i}", 0 if zero else 1, dmax) for i in range(n)]
    if frac:
        for x in d:
            c.assume(x > 0)
    e = [a + b for a, b in zip(s, d)]
    deps = []
    for i in range(n):
        for j in range(i + 1, n):
            if c.flag(f"dep{i}{j}"):
                c.assume(e[i] == s[j])
                deps.append((i, j))
    rows = [(i, "o", s[i], e[i], "ACTIVE" if i % 2 else "WAITING") for i in range(n)]
    if shared:
        rows += [(0, "p", s[0], e[0], "WAITING"), (n - 1, "Activity", s[n - 1], e[n - 1], "ACTIVE")]
    if c.flag("reversed"):
        rows = rows[::-1]
    if dates:
        unit = c.choice("unit", [1, 50000])  # more than a day
        s, d, e = ([x * unit for x in v] for v in (s, d, e))
        rows = [(i, o, a * unit, b * unit, st) for i, o, a, b, st in rows]
        D = senv.FakeDatetime.utcfromtimestamp if c.symbolic else pd.Timestamp.utcfromtimestamp
        rows = [(i, o, D(a), D(b), st) for i, o, a, b, st in rows]
    g = SimulationGraph(frame(rows), [(f"cp {i}", f"cp {j}") for i, j in deps])
    crit = g.get_list_critical_activities()
    c.check(len(set(crit)) == len(crit), "an activity is listed twice")
    got = {i for i in range(n) if f"cp {i}" in crit}
    c.check(len(got) == len(crit), "an unknown activity is critical")
    if zero:  # what takes no time is on a chain but not marked
        want = critical_formula(n, deps, d, e)
        for i in range(n):
            if d[i] == 0:
                c.check(i not in got, "what takes no time is marked critical")
                c.cover("zero")
            else:
                compare(c, {0} if i in got else set(), [want[i]])
    else:
        compare(c, got, critical_formula(n, deps, d, e))
    c.check(sorted(g.get_list_critical_activities()) == sorted(crit), "asked again, others are critical")
    c.cover(len(got))


def plotly_stub(c):
    if c.symbolic and bcp.go.Scatter is not Plain:
        vp.go = bcp.go = type("go", (), {"Scatter": Plain, "Layout": Plain, "Figure": Plain})


class Given(BaseCP):
    """Records and dependencies that are known."""

    def get_dependency_list(self):
        return self.dependency_list


def table(c, n=4, dmax=3, span=4):
    """The table of the critical path and its chart, for records on several objects:
    runs of one activity, runs at the same moment, runs that only the activity logs."""
    plotly_stub(c)
    s = [c.int(f"start{i}", 0, span) if i else 0 for i in range(n)]
    d = [c.int(f"dur{i}", 0, dmax) for i in range(n)]
    e = [a + b for a, b in zip(s, d)]
    deps = []
    for i in range(n):
        for j in range(i + 1, n):
            if (i, j) != (0, n - 1) and c.flag(f"dep{i}{j}"):
                c.assume(e[i] == s[j])
                deps.append((i, j))
    act = {0: "x", 1: "x", 2: "y", 3: "y", 4: "z"}
    on = {0: ["o", "p", "Activity"], 1: ["Activity"], 2: ["p", "Activity"], 3: ["Activity"], 4: ["o"]}
    state = c.choice("states", ["AWAW", "AAAA", "WAWA"])
    D = senv.FakeDatetime.utcfromtimestamp if c.symbolic else pd.Timestamp.utcfromtimestamp
    rows = [dict(Activity="name " + act[i], ActivityID="id " + act[i], SimulationObject=o, start_time=D(s[i]),
                 end_time=D(e[i]), duration=D(e[i]) - D(s[i]),
                 state="ACTIVE" if state[i % 4] == "A" else "WAITING", cp_activity_id=f"cp {i}")
            for o in ("o", "p", "Activity") for i in range(n) if o in on[i]]
    b = Given(None, [], [])
    b.recorded_activities_df = pd.DataFrame(rows)
    b.dependency_list = [(f"cp {i}", f"cp {j}") for i, j in deps]
    got = b.get_critical_path_df().to_dict("records")
    want = critical_formula(n, deps, d, e)
    seen = {}
    for r in got:
        i = int(r["cp_activity_id"][3:])
        seen.setdefault((i, r["SimulationObject"]), []).append(r)
        if d[i] == 0:
            c.check(not r["is_critical"], "what takes no time is marked critical")
        else:
            compare(c, {0} if r["is_critical"] else set(), [want[i]])
        c.check(r["ActivityID"] == "id " + act[i] and r["Activity"] == "name " + act[i], "a run is another activity")
        c.check(and_(senv.seconds(r["start_time"]) == s[i], senv.seconds(r["end_time"]) == e[i]),
                "a run is shown at another time")
    for i in range(n):
        objs = [o for o in on[i] if o != "Activity"]
        for o in objs:
            c.check(len(seen.get((i, o), [])) == 1, "a run on an object is not in the table once")
        k = len(seen.get((i, "Activity"), []))
        if objs:
            c.check(k == 0, "a run is in the table once more")
        elif d[i] == 0:
            c.check(k == 0, "what takes no time is marked critical")
        elif k == 0:
            c.check(not_(want[i]), "a critical run that only its activity logs is missing")
            c.cover("left out")
        else:
            c.check(k == 1, "a run is in the table once more")
            c.cover("kept")
    # the chart: one line with all critical runs, one for every activity on every object
    fig = b.make_plotly_gantt_chart(static=True)
    bars = {}
    for t in fig["data"]:
        xs, ys = list(t.x), list(t.y)
        c.check(len(xs) == len(ys) and len(xs) % 3 == 0, "a bar has another form")
        for k in range(0, len(xs), 3):
            c.check(ys[k] == ys[k + 1] and ys[k + 2] is None, "bars are not separated")
            bars.setdefault(t.name, []).append((senv.seconds(xs[k]), senv.seconds(xs[k + 1]), ys[k]))
    exp = {}
    for r in got:
        bar = (senv.seconds(r["start_time"]), senv.seconds(r["end_time"]), r["SimulationObject"])
        exp.setdefault(r["Activity"], []).append(bar)
        if r["is_critical"]:
            exp.setdefault("critical_path", []).append(bar)
    for k in set(bars) | set(exp):
        for o in ("o", "p", "Activity"):
            x = sorted(z[:2] for z in bars.get(k, []) if z[2] == o)
            y = sorted(z[:2] for z in exp.get(k, []) if z[2] == o)
            c.check(len(x) == len(y), "the chart shows another number of bars")
            for p, q in zip(x, y):
                c.check(and_(p[0] == q[0], p[1] == q[1]), "a bar lies elsewhere")
    c.cover("critical" if "critical_path" in exp else "nothing")


def refused(c, n=2, dmax=3, span=4):
    """Dependencies must fit the times."""
    s = [c.int(f"start{i}", 0, span) for i in range(n)]
    d = [c.int(f"dur{i}", 1, dmax) for i in range(n)]
    e = [a + b for a, b in zip(s, d)]
    rows = [(i, "o", s[i], e[i], "ACTIVE") for i in range(n)]
    try:
        SimulationGraph(frame(rows), [("cp 0", "cp 1")])
        ok = True
    except ValueError:
        ok = False
    c.check((e[0] == s[1]) if ok else not_(e[0] == s[1]),
            "a dependency with a gap is accepted, or one without is refused")
    c.cover("ok" if ok else "refused")


def layered(c, dmax=3, extra=True):
    """Two stages of parallel chains which meet: ties in many places."""
    d = [c.int(f"dur{i}", 1, dmax) for i in range(5)]
    # a, b end together; c, d start then; e starts when it can
    t = dmax
    s = [t - d[0], t - d[1], t, t, t + d[2]]
    e = [t, t, t + d[2], t + d[3], t + d[2] + d[4]]
    deps = [(0, 2), (2, 4)]
    for k, x in enumerate([(0, 3), (1, 2), (1, 3)]):
        if c.flag(f"dep{k}"):
            deps.append(x)
    if extra and c.flag("tie"):
        c.assume(e[3] == s[4])
        deps.append((3, 4))
    order = c.choice("order", [[0, 1, 2, 3, 4], [1, 0, 3, 2, 4], [4, 3, 2, 1, 0], [3, 1, 0, 4, 2]])
    g = SimulationGraph(frame([(i, "o", s[i], e[i], "ACTIVE") for i in order]),
                        [(f"cp {i}", f"cp {j}") for i, j in deps])
    crit = g.get_list_critical_activities()
    compare(c, {i for i in range(5) if f"cp {i}" in crit}, critical_formula(5, deps, d, e))
    c.cover(len(crit))


SCENARIOS = [
    Scenario("graph", graph, quick=dict(n=4, dmax=3, span=4), thorough=dict(n=5, dmax=4, span=6),
             covers=[1, 2, 3, 4], what="all graphs, timetables and ties"),
    Scenario("zero", graph, quick=dict(n=4, dmax=2, span=2, zero=True), thorough=dict(n=5, dmax=2, span=3, zero=True),
             covers=["zero", 1, 2, 3], what="activities that take no time"),
    Scenario("dates", graph, quick=dict(n=3, dates=True), thorough=dict(n=4, dates=True),
             covers=[1, 2, 3], what="times as dates"),
    Scenario("fractions", graph, quick=dict(n=3, frac=True), thorough=dict(n=4, frac=True),
             covers=[1, 2, 3], what="fractional times"),
    Scenario("moments", graph, quick=dict(n=3, dates=True, frac=True, dmax=2, span=2),
             thorough=dict(n=3, dates=True, frac=True),
             covers=[1, 2, 3], what="times as dates, with parts of a second"),
    Scenario("layered", layered, quick=dict(dmax=3), thorough=dict(dmax=9), covers=[2, 3, 4, 5],
             what="chains that meet"),
    Scenario("table", table, quick=dict(n=4, dmax=2, span=3), thorough=dict(n=5, dmax=3, span=4),
             covers=["left out", "kept", "critical"], what="the table of the critical path and its chart"),
    Scenario("refused", refused, quick=dict(), thorough=dict(dmax=9, span=20), covers=["ok", "refused"],
             what="dependencies that do not fit"),
]
