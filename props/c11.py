"""C11 Loops run the prescribed number of times."""

from . import trees
from .base import *  # noqa: F401,F403


def counts(c, dmax=2, most=4):
    """Repetitions, also nested, each with all its parts in order."""
    e = Env(max_steps=2500)
    n = c.choice("repetitions", list(range(1, most + 1)))
    m = c.choice("inner repetitions", [1, 2, 3])
    L, seq, par, rep = trees.leaf, trees.seq, trees.par, trees.rep
    # the inner loop may have to wait for a time, before its first pass only
    o = {"at": c.num("at", 0, dmax)} if c.flag("own condition") else {}
    table = {
        "alone": rep("r", n, L("a"), L("b"), **o),
        "in sequence": seq("s", L("x"), rep("r", n, L("a"), L("b"), **o), L("y")),
        "in parallel": par("p", rep("r", n, L("a")), rep("q", m, L("b"), L("x"), **o)),
        "in loop": rep("q", m, L("x"), rep("r", n, L("a"), **o)),
        "around sequence": rep("r", n, seq("s", L("a"), rep("q", m, L("b"), **o))),
        "around parallel": rep("r", n, par("p", L("a"), rep("q", m, L("b"), **o))),
    }
    which = c.choice("shape", list(table))
    t = trees.Tree(c, table[which], e, {}, dmax=dmax)
    model.register_processes([t.top])
    run(c, e)
    t.expect()
    for k in t.order:
        got, want = t.actual(k), t.runs[k]
        c.check(len(got) == len(want), "an activity in a loop does not run as often as prescribed")
        for (a, b), (_, start, stop, _) in zip(got, want):
            c.check(a == start, "an activity in a loop does not start in its turn")
            c.check(b == stop, "an activity in a loop does not stop in its turn")
        if t.spec[k][0] != "leaf":
            part, stray = t.parts(k)
            for s in t.subs(k):
                c.check(and_(len(part[s][0]) == len(t.runs[s]), len(part[s][1]) == len(t.runs[s])),
                        "a loop does not record each pass of its parts")
    c.cover(which)
    if o:
        c.cover("own condition")


def until(c, tmax=5, dmax=2):
    """While loops that stop on times, other activities and their combinations."""
    e = Env(max_steps=2500)
    reg = {}
    kw = dict(env=e, registry=reg)
    T = c.int("time", 0, tmax) + 0.5
    U = c.int("other", 0, tmax) + 0.5
    d = [c.int("d0", 1, dmax), c.int("d1", 0, dmax)]
    first_ = c.int("before", 0, 1)
    other = Basic(name="other", duration=U, **kw)
    by = {"type": "activity", "state": "done"}
    by[c.choice("refer", ["name", "ID"])] = None
    by = {k: (v if v is not None else (other.id if k == "ID" else other.name))
          for k, v in by.items()}
    tm = {"type": "time", "start_time": T}
    kind = c.choice("condition", ["time", "activity", "and", "or", "list"])
    bare = c.flag("bare") if kind != "list" else False  # not in a list
    cond = {"time": [tm], "activity": [by], "and": [{"and": [tm, by]}], "or": [{"or": [tm, by]}],
            "list": [tm, by]}[kind]
    if bare:
        cond = cond[0]
        c.cover("bare")
    done = {"time": T, "activity": U, "and": mx(T, U), "or": mn(T, U), "list": mx(T, U)}[kind]
    a = Basic(name="a", duration=d[0], **kw)
    b = Basic(name="b", duration=d[1], **kw)
    wrap = c.choice("nesting", ["sequence", "loop"])
    own = c.flag("own condition")
    S = c.int("own", 0, tmax) if own else 0
    own_ = [{"type": "time", "start_time": S}] if own else None
    w = While(name="w", sub_processes=[a, b], condition_event=cond, start_event=own_, **kw)
    x = Basic(name="x", duration=first_, **kw)
    y = Basic(name="y", duration=1, **kw)
    if wrap == "sequence":
        top = Seq(name="top", sub_processes=[x, w, y], **kw)
    else:
        top = Repeat(name="top", repetitions=2, sub_processes=[x, w, y], **kw)
    model.register_processes([other, top])
    run(c, e)
    # by hand
    t = 0
    runs = {n: [] for n in "abwxy"}
    for _ in range(1 if wrap == "sequence" else 2):
        runs["x"].append((t, t + first_))
        t = mx(t + first_, S)
        began = t
        # a time that has passed when the loop starts needs no waiting
        n = 0
        while True:
            runs["a"].append((t, t + d[0]))
            runs["b"].append((t + d[0], t + d[0] + d[1]))
            t = t + d[0] + d[1]
            n += 1
            if t > done:
                break
            c.cover("again")
        runs["w"].append((began, t))
        runs["y"].append((t, t + 1))
        t = t + 1
        if n == 1:
            c.cover("once")
    if own_:
        c.cover("own condition")
    for act in (a, b, w, x, y):
        got, ns, ne = intervals(act)
        want = runs[act.name]
        c.check(ns == len(want) and ne == len(want), "a while loop does not stop when it should")
        for g, v in zip(got, want):
            c.check(and_(g[0] == v[0], g[1] == v[1]), "a pass of a while loop is not back to back")
    c.cover(kind)


def long(c, passes=1100):
    """Loops of many passes."""
    e = Env(max_steps=60 * passes)
    kw = dict(env=e, registry={})
    a = Basic(name="a", duration=1, **kw)
    how = c.choice("loop", ["repeat", "until a time", "until empty"])
    n = passes + c.choice("more", [0, 1])
    if how == "repeat":
        w = Repeat(name="w", sub_processes=[a], repetitions=n, **kw)
    elif how == "until a time":
        w = While(name="w", sub_processes=[a], condition_event=[
            {"type": "time", "start_time": n - c.num("before the last", 0.25, 0.75)}], **kw)
    else:
        A, B = site(e, "A", capacity=n, level=n), site(e, "B", capacity=n)
        a = Shift(name="a", processor=cranes(e, ["c"])[0], origin=A, destination=B, amount=1, duration=1, **kw)
        w = While(name="w", sub_processes=[a], condition_event=[
            {"type": "container", "concept": A, "state": "empty"}], **kw)
    model.register_processes([w])
    run(c, e)
    iv, ns, ne = intervals(a)
    c.check(ns == n and ne == n, "a long loop does not run as often as prescribed")
    c.check(e.now == n, "a long loop takes another time than its passes")
    c.cover(how)


def empty(c, amax=3, big=8):
    """A loop that runs until a site is empty or full."""
    e = Env(max_steps=4000)
    reg = {}
    kw = dict(env=e, registry=reg)
    la = c.int("levelA", 1, big)
    fb = c.int("freeB", 1, big)
    A = site(e, "A", capacity=2 * big, level=la)
    B = site(e, "B", capacity=fb + 1, level=1)
    v = vessel(e, "v", capacity=c.int("cap", 1, amax))
    cap = v.container.get_capacity()
    amount = c.choice("amount", [None, 2])
    subs = [Move(name="m", mover=v, destination=A, duration=1, **kw),
            Shift(name="l", processor=v, origin=A, destination=v, duration=2, amount=amount, **kw),
            Move(name="n", mover=v, destination=B, duration=1, **kw),
            Shift(name="u", processor=v, origin=v, destination=B, duration=1, **kw)]
    how = c.choice("stop", ["empty", "full", "or", "level"])
    ev = {"empty": {"type": "container", "concept": A, "state": "empty"},
          "full": {"type": "container", "concept": B, "state": "full"}}
    lev = c.int("level", 1, big) if how == "level" else None
    cond = {"empty": [ev["empty"]], "full": [ev["full"]],
            "or": [{"or": [ev["empty"], ev["full"]]}],
            "level": [{"type": "container", "concept": B, "state": "ge", "level": lev}]}[how]
    # what a trip moves; the plan is feasible up to its stop
    trip = cap if amount is None else mn(cap, amount)
    if how == "empty":
        c.assume(fb >= la)
        goal = la
    elif how == "full":
        c.assume(la >= fb)
        c.assume(la >= fb)
        goal = fb
    elif how == "or":
        goal = mn(la, fb)
    else:
        goal = lev - 1
        c.assume(and_(goal <= la, goal <= fb))
    w = While(name="w", sub_processes=subs, condition_event=cond, **kw)
    model.register_processes([w])
    try:
        run(c, e)
    except ValueError:
        c.fail("a loop goes on after its stop condition was fulfilled")
        return
    n, moved = 0, 0
    on_board, left = 0, la
    while n == 0 or moved < goal:
        take = mn(trip, left, cap - on_board)
        left, on_board = left - take, on_board + take
        put = mn(on_board, fb - moved)
        moved, on_board = moved + put, on_board - put
        n += 1
    for s in subs:
        got, ns, ne = intervals(s)
        c.check(ns == n and ne == n, "a while loop does not stop after the pass that fulfils its condition")
        for k, (x, y) in enumerate(got):
            at = 5 * k + {"m": 0, "l": 1, "n": 3, "u": 4}[s.name]
            c.check(x == at, "a pass of a while loop is not back to back")
    c.check(level(B) == 1 + moved, "a while loop moved another amount than its passes do")
    c.cover(how)
    if n > 1:
        c.cover("again")


SCENARIOS = [
    Scenario("counts", counts, quick=dict(), thorough=dict(dmax=4, most=6),
             covers=["alone", "in sequence", "in parallel", "in loop", "around sequence",
                     "around parallel", "own condition"], what="repeat activities"),
    Scenario("until", until, quick=dict(tmax=4), thorough=dict(tmax=9, dmax=4),
             covers=["time", "activity", "and", "or", "list", "once", "again", "own condition"],
             what="while activities, by time and other activities"),
    Scenario("long", long, quick=dict(), thorough=dict(passes=5000),
             covers=["repeat", "until a time", "until empty"], what="loops of many passes"),
    Scenario("empty", empty, quick=dict(big=6), thorough=dict(amax=4, big=12),
             covers=["empty", "full", "or", "level", "again"],
             what="while activities, by container levels"),
]
