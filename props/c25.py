"""C25 The planning chart shows what was logged."""

from openclsim.plot import get_gantt_chart, get_log_dataframe
import openclsim.plot.vessel_planning as vp

from .base import *  # noqa: F401,F403
from .trees import Tree, shapes


def norm(x):
    """Missing and empty are the same."""
    return None if x is None or (type(x) is float and x != x) else x


def states(c, o, df, names):
    """One row per entry, in order of time; entries of one moment as they were made."""
    log = entries(o)
    c.check(len(df) == len(log), "the table has another number of rows than the log")
    order = []
    for i, x in enumerate(log):  # stable insertion by time
        k = len(order)
        while k > 0 and log[order[k - 1]][0] > x[0]:
            k -= 1
        order.insert(k, i)
    if order != list(range(len(log))):
        c.cover("sorted")
    for row, i in zip(df.to_dict("records"), order):
        t, a, s, ob, lab = log[i]
        c.check(senv.seconds(row["Timestamp"]) == t, "a row of the table has another time")
        c.check(row["Activity"] == names.get(a, a), "a row of the table has another activity")
        c.check(row["ActivityState"] == s, "a row of the table has another state")
        for k, v in ob.items():
            if k == "geometry":
                c.check(row[k] is v, "a row of the table has another place")
            else:
                c.check(row[k] == v, "a row of the table has another object state")
        for k in ("type", "ref"):
            c.check(norm(row.get(k)) == norm((lab or {}).get(k)), "a row of the table has another label")


class Acts:
    def __init__(self, i, name, subs=None):
        self.id, self.name = i, name
        if subs:
            self.sub_processes = subs


def table(c, acts=3, steps=4, amax=3, span=3):
    """A log made by hand, its entries not in the order of time."""
    e = Env()
    o = site(e, "o", capacity=99, level=c.int("level", 0, amax))
    ids = [f"id-{i}" for i in range(acts)]
    for k in range(steps):
        i = k % acts
        o.log_entry_v1(c.int(f"t{k}", 0, span), activity_id=ids[i],
                       activity_state=[core.LogState.START, core.LogState.STOP, core.LogState.WAIT_START][(k + i) % 3],
                       activity_label={"type": "plugin", "ref": f"p{k}"} if k % 3 == 1 else None)
        if k % 2:
            o.container.put(c.int(f"put{k}", 0, amax))
    kind = c.choice("map", ["none", "list", "dict", "nested", "manual"])
    names = {i: f"name of {i}" for i in ids}
    x = [Acts(i, names[i]) for i in ids]
    if kind == "none":
        names, m = {}, None
    elif kind == "list":
        m = x
    elif kind == "dict":
        m = {a.name: a for a in x}
    elif kind == "nested":
        m = [Acts("top", "top", [x[0], Acts("mid", "mid", x[1:])])]
    else:
        m = names
    c.cover(kind)
    states(c, o, get_log_dataframe(o, id_map=m) if m is not None else get_log_dataframe(o), names)


def large(c, n=24):
    """More entries than a sort keeps in order by accident, all within a few moments."""
    e = Env()
    o = site(e, "o", capacity=99)
    t = [c.int(f"t{k}", 0, 1) for k in range(2)]
    for k in range(n):
        o.log_entry_v1(t[1 if 5 < k < n - 6 else 0], activity_id=f"id-{k}",
                       activity_state=core.LogState.START)
    states(c, o, get_log_dataframe(o), {})


def bars_of_log(o):
    """activity id -> [(start, stop)] of the log of one object, label by label."""
    r, begun = {}, {}
    for t, a, s, ob, lab in entries(o):
        r.setdefault(a, [])
        key = (a, (lab or {}).get("ref"))
        if s == "START":
            begun[key] = t
        elif s == "STOP":
            r[a].append((begun[key], t))
    return r


class Plain:
    """Stand-ins for plotly's classes, which copy what they are given."""

    def __init__(self, *a, **k):
        self.__dict__.update(k)


def chart(concepts, **k):
    d = get_gantt_chart(concepts, static=True, **k)
    xs = [(t.name, list(t.x or []), list(t.y or [])) for t in d["data"]]
    ax = d["layout"].xaxis
    return xs, list(ax["range"])


def check_chart(c, concepts, kwargs, name_of, numbers=False, only=None):
    traces, rng = chart(concepts, **kwargs)
    objs = list(concepts.values()) if isinstance(concepts, dict) else concepts
    want = {}
    for o in objs:
        for a, bars in bars_of_log(o).items():
            want.setdefault(name_of(a), []).extend((s, t, o) for s, t in bars)
    if only is not None:
        want = {k: v for k, v in want.items() if k in only}
    c.check(sorted(t[0] for t in traces) == sorted(want), "the chart names other activities than were logged")
    row = {o.name: o.name for o in objs}
    if numbers:
        k = 0
        for o in objs:
            if o.logbook:
                row[o.name] = -k
                k += 1
    for n, xs, ys in traces:
        c.check(len(xs) == len(ys) and len(xs) % 5 == 0, "a bar has another form")
        got = []
        for k in range(0, len(xs), 5):
            x, y = [senv.seconds(v) for v in xs[k:k + 5]], ys[k:k + 5]
            c.check(and_(x[0] == x[1], x[2] == x[3], x[3] == x[4]), "a bar has another form")
            c.check(y[4] is None and len(set(y[:4])) == 1, "bars are not separated")
            got.append((x[0], x[2], y[0]))
        # matched row by row, in order of time
        exp = want.get(n, [])
        c.check(len(got) == len(exp), "the chart shows another number of bars than there were runs")
        for o in objs:
            g = sorted(((a, b) for a, b, y in got if y == row[o.name]), key=lambda v: (v[0], v[1]))
            w = sorted(((a, b) for a, b, y in exp if y is o), key=lambda v: (v[0], v[1]))
            c.check(len(g) == len(w), "the chart shows another number of bars on a row than there were runs")
            for p, q in zip(g, w):
                c.check(p[0] == q[0], "a bar starts at another moment than was logged")
                c.check(p[1] == q[1], "a bar ends at another moment than was logged")
    ts = [x[0] for o in objs for x in entries(o)]
    if not ts:
        return
    c.check(senv.seconds(rng[0]) == mn(*ts), "the time axis starts elsewhere")
    c.check(senv.seconds(rng[1]) == mx(*ts), "the time axis ends elsewhere")


def plotly_stub(c):
    if c.symbolic and vp.go.Scatter is not Plain:
        vp.go = type("go", (), {"Scatter": Plain, "Layout": Plain, "Figure": Plain})


def fleet(c, dmax=2, trips=2, cut=0):
    """Sail, load, sail, unload in a loop; a second vessel competes for the sites."""
    plotly_stub(c)
    e = Env(initial_time=c.int("t0", 0, 3), max_steps=1500)
    kw = dict(env=e, registry={})
    A, B = site(e, "A", capacity=99, level=trips), site(e, "B", capacity=99)
    v, w = vessel(e, "v", capacity=1), vessel(e, "w", capacity=1)
    idle = vessel(e, "idle", capacity=1)
    subs = [Move(name="m", mover=v, destination=A, duration=c.int("dm", 0, dmax), **kw),
            Shift(name="l", processor=v, origin=A, destination=v, duration=c.int("dl", 0, dmax), **kw),
            Move(name="n", mover=v, destination=B, duration=1, **kw),
            Shift(name="u", processor=v, origin=v, destination=B, duration=c.int("du", 0, dmax), **kw)]
    top = While(name="while", sub_processes=subs, condition_event=[
        {"type": "container", "concept": A, "state": "empty"}], **kw)
    other = Shift(name="other", processor=w, origin=A, destination=w, amount=1,
                  duration=c.int("do", 1, dmax), **kw)
    model.register_processes([top, other])
    if cut:
        e.run(until=e.now + cut)
    else:
        run(c, e)
    names = {a.id: a.name for a in subs + [top, other]}
    raw = lambda i: i  # noqa: E731
    k = c.choice("view", ["acts", "nested", "objects", "mixed", "dict", "manual", "chosen", "numbers"])
    c.cover(k)
    if k == "acts":
        check_chart(c, [top, *subs], {}, lambda i: names[i])
    elif k == "nested":
        check_chart(c, [top], {}, lambda i: names[i])
    elif k == "objects":
        check_chart(c, [v, A, B], {}, raw)
    elif k == "mixed":
        check_chart(c, [top, v, idle, A], {}, lambda i: raw(i) if i == other.id else names[i])
    elif k == "dict":
        check_chart(c, {"a": v, "b": w, "c": A}, dict(id_map={"x": top, "y": other}), lambda i: names[i])
    elif k == "manual":
        check_chart(c, [v, w, A, B], dict(id_map=names), lambda i: names[i])
    elif k == "chosen":
        pick = [subs[0].id, subs[1].id]
        pick = {"x": pick[0], "y": pick[1]} if c.flag("dict of activities") else pick
        check_chart(c, [v, A], dict(activities=pick, id_map=[top]), lambda i: names[i], only=["m", "l"])
    else:
        check_chart(c, [idle, v, B], dict(id_map=[top], y_scale="numbers"), lambda i: names[i], numbers=True)


def places(c, dmax=3, n=2):
    """Activities at the same time on one row: a site with two places, extra logs."""
    plotly_stub(c)
    e = Env(initial_time=c.int("t0", 0, 1), max_steps=1500)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=99, level=50, nr=n)
    vs = [vessel(e, f"v{k}", capacity=9) for k in range(n)]
    tops, parts = [], []
    for k, v in enumerate(vs):
        b = Basic(name=f"b{k}", duration=c.int(f"t{k}", 0, dmax) if k else 1, additional_logs=[A], **kw)
        s = Shift(name=f"s{k}", processor=v, origin=A, destination=v, amount=1,
                  duration=c.num(f"d{k}", 0, dmax, denom=2), **kw)
        parts += [b, s]
        tops.append(Seq(name=f"q{k}", sub_processes=[b, s], **kw))
    model.register_processes(tops)
    if c.flag("cut"):
        e.run(until=e.now + 3)
    else:
        run(c, e)
    names = {x.id: x.name for x in parts + tops}
    check_chart(c, [vs[0], A] + tops if c.flag("with activities") else [A, *vs], dict(id_map=tops), lambda i: names[i])


def plans(c, dmax=2, small=True):
    """Nested activities of every structure, their parts' runs included."""
    plotly_stub(c)
    e = Env(max_steps=1500)
    sh = shapes(small)
    T = Tree(c, sh[c.choice("shape", list(sh))], e, {}, dmax=dmax)
    model.register_processes([T.top])
    run(c, e)
    acts = [T.top] + [a for a in T.acts.values() if a is not T.top]
    check_chart(c, acts, {}, lambda i: {a.id: a.name for a in acts}[i])


def waits(c, dmax=3):
    """A vessel that also logs activities that wait for their start time: their waits are
    entered when they are over, after entries of later moments."""
    plotly_stub(c)
    e = Env(initial_time=c.int("t0", 0, 2), max_steps=900)
    kw = dict(env=e, registry={})
    v, B = vessel(e, "v", capacity=1), site(e, "B", capacity=1)
    a = Basic(name="a", duration=c.int("da", 0, dmax), **kw)
    m = Move(name="m", mover=v, destination=B, duration=c.int("dm", 0, dmax), **kw)
    q = Seq(name="q", sub_processes=[a, m], **kw)
    b = Basic(name="b", duration=c.int("db", 0, dmax), additional_logs=[v], start_event=[
        {"type": "time", "start_time": c.int("at", 0, 2 * dmax)}], **kw)
    model.register_processes([q, b] if c.flag("order") else [b, q])
    run(c, e)
    names = {x.id: x.name for x in (a, m, q, b)}
    if c.flag("with activities"):
        check_chart(c, [v, q, b], {}, lambda i: names[i])
    else:
        check_chart(c, [v], dict(id_map=[q, b]), lambda i: names[i])
    ts = [x[0] for x in entries(v)]
    if ts[0] > mn(*ts):
        c.cover("not in order")


SCENARIOS = [
    Scenario("table", table, quick=dict(span=2), thorough=dict(steps=5, span=4),
             covers=["sorted", "none", "list", "dict", "nested", "manual"], what="tables of hand-made logs"),
    Scenario("large", large, quick=dict(), thorough=dict(n=40), what="tables of many simultaneous entries"),
    Scenario("fleet", fleet, quick=dict(), thorough=dict(dmax=4, trips=3),
             covers=["acts", "nested", "objects", "mixed", "dict", "manual", "chosen", "numbers"],
             what="charts of activities, vessels and sites"),
    Scenario("cut", fleet, quick=dict(cut=4, dmax=2), thorough=dict(dmax=3, cut=7), what="charts of simulations cut short"),
    Scenario("waits", waits, quick=dict(), thorough=dict(dmax=6), covers=["not in order"],
             what="waits entered after the fact"),
    Scenario("places", places, quick=dict(dmax=2), thorough=dict(dmax=4, n=3), what="several activities at once on a row"),
    Scenario("plans", plans, quick=dict(dmax=1), thorough=dict(dmax=3, small=False),
             what="charts of nested activities"),
]
