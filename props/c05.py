"""C05 Container conditions fire exactly when they become true."""

from .base import *  # noqa: F401,F403

OPS = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
       "lt": lambda a, b: a < b, "le": lambda a, b: a <= b}


def history(c, n=4, cap=6, asks=1, mixed=False, kinds=("ask", "put", "get", "tick"),
            rush=False, multi=False):
    """A sequence of puts, gets, requests and passing time on one container."""
    e = Env(max_steps=400)

    def amount(name, lo):  # fine grid: thresholds and levels that hardly differ
        return c.num(name, lo, cap, denom=1024)

    capacity = amount("capacity", 1)
    l0 = amount("level", 0)
    c.assume(l0 <= capacity)
    if multi:
        st = MultiSite(env=e, name="S", geometry=P0, initials=[
            {"id": "rock", "capacity": cap, "level": amount("rock", 0)},
            {"id": "sand", "capacity": capacity, "level": l0}])
        id_ = "sand"
    else:
        st = site(e, "S", capacity=capacity, level=l0)
        id_ = "default"
    cont = st.container
    conds = []
    for i in range(asks):
        op = c.choice(f"operator{i}", ["gt", "ge", "lt", "le", "full", "empty"])
        th = amount(f"threshold{i}", 0) if op in OPS else None
        conds.append((op, th))

    def holds(cond, lev):
        op, th = cond
        if op == "full":
            return lev >= capacity
        if op == "empty":
            return lev <= 0
        return OPS[op](lev, th)

    def ask(cond):
        op, th = cond
        if op == "full":
            return cont.get_full_event(id_=id_)
        if op == "empty":
            return cont.get_empty_event(id_=id_)
        return cont.get_container_event(level=th, operator=op, id_=id_)

    pending = []  # (event, condition, index into the level history)
    levels = [l0]  # every level there has been

    def request(cond):
        lev = level(st, id_)
        before = ask(cond)
        if before.triggered:
            c.check(holds(cond, lev), "a condition that does not hold is signalled at the request")
            c.cover("at once")
        else:
            c.cover("pending")
            c.check(not_(holds(cond, lev)), "a condition that holds is not signalled")
        pending.append((before, cond, len(levels) - 1))

    def seen():
        """After every simulation step."""
        lev = level(st, id_)
        if lev is not levels[-1]:
            levels.append(lev)
        over = not e._queue or e.peek() > e.now
        for ev, cond, since in pending:
            if ev.triggered:
                c.check(or_(*[holds(cond, x) for x in levels[since:]]),
                        "a condition is signalled that has not held since the request")
            elif over:
                c.check(not_(holds(cond, lev)), "a condition holds and is not signalled")

    def change(i, kind):
        x = amount(f"x{i}", 1 / 1024)
        lev = level(st, id_)
        if kind == "put":
            c.assume(lev + x <= capacity)
            r = cont.put(x, id_)
        else:
            c.assume(lev - x >= 0)
            r = cont.get(x, id_)
        levels.append(level(st, id_))
        return r

    def driver():
        request(conds[0])
        for i in range(n):
            kind = c.choice(f"op{i}", list(kinds))
            if kind == "ask":
                request(conds[i % asks] if not mixed else c.choice(f"which{i}", conds))
            elif kind == "tick":
                yield e.timeout(1)
            elif kind == "rush":  # two changes before anything else happens
                a = change(2 * i + 10, "put")
                b = change(2 * i + 11, "get")
                yield e.all_of([a, b])
            elif kind in ("put, ask", "get, ask"):  # a request right after the change
                x = change(i, kind[:3])
                request(conds[i % asks])
                yield x
            else:
                yield change(i, kind)
        yield e.timeout(1)
        for cond in conds:
            request(cond)
        yield e.timeout(1)

    e.watch.append(seen)
    e.process(driver())
    run(c, e)
    if any(ev.triggered for ev, _, _ in pending):
        c.cover("fired")


def activities(c, amax=3, tmax=2, multi=False):
    """A condition of an activity through the planning language."""
    e = Env(max_steps=600)
    reg = {}
    id_ = "sand" if multi else "default"
    it = {"id_": id_} if multi else {}
    capA, levelA = c.int("capA", amax, 2 * amax), c.int("levelA", 0, amax)
    if multi:
        A = MultiSite(env=e, name="A", geometry=P0, initials=[
            {"id": "rock", "capacity": amax, "level": c.choice("rock", [0, 1, amax])},
            {"id": "sand", "capacity": capA, "level": levelA}])
        B = MultiSite(env=e, name="B", geometry=P0, initials=[
            {"id": "sand", "capacity": 4 * amax, "level": 2 * amax}])
    else:
        A = site(e, "A", capacity=capA, level=levelA)
        B = site(e, "B", capacity=4 * amax, level=2 * amax)
    op = c.choice("operator", ["gt", "ge", "lt", "le", "full", "empty"])
    cond = {"type": "container", "concept": A, "state": op, **it}
    th = c.int("threshold", 0, 2 * amax) if op in OPS else None
    if th is not None:
        cond["level"] = th

    def holds(lev):
        if op == "full":
            return lev >= capA
        if op == "empty":
            return lev <= 0
        return OPS[op](lev, th)

    act = Basic(name="act", env=e, registry=reg, duration=1, start_event=[cond])
    cr = cranes(e, ["c0", "c1"])
    plan = [Basic(name="w0", env=e, registry=reg, duration=c.int("t0", 0, tmax)),
            Shift(name="s0", env=e, registry=reg, processor=cr[0], origin=B, destination=A,
                  duration=1, amount=c.int("a0", 1, amax), **it),
            Basic(name="w1", env=e, registry=reg, duration=c.int("t1", 1, tmax)),
            Shift(name="s1", env=e, registry=reg, processor=cr[0], origin=A, destination=B,
                  duration=1, amount=c.int("a1", 1, amax), **it)]
    q = Seq(name="q", env=e, registry=reg, sub_processes=plan)
    c.assume(levelA < capA)
    inst = Instants(e, [A], (id_,))
    model.register_processes([act, q])
    run(c, e)
    st = first(act, "START")
    # (the level right after the shift out of A began exists for the rest of that instant only
    # if nothing else happens, so instants are enough here)
    when = None
    for t, s in inst.at:
        if holds(s[("A", id_)]):
            when = t
            break
    if when is None:
        c.cover("never")
        c.check(st is None, "an activity starts although its condition never held")
    else:
        c.cover("started")
        if st is None:
            c.fail("an activity whose condition held does not start")
        else:
            c.check(st == when, "an activity does not start when its condition first holds")


SCENARIOS = [
    Scenario("history", history, quick=dict(n=4), thorough=dict(n=5),
             covers=["pending", "at once", "fired"], what="puts, gets, requests, passing time"),
    Scenario("two", history, quick=dict(n=3, asks=2, kinds=("ask", "put", "get")),
             thorough=dict(n=4, asks=2), covers=["pending", "at once", "fired"],
             what="two conditions asked in turn"),
    Scenario("rush", history, quick=dict(n=3, kinds=("ask", "rush", "tick"), rush=True),
             thorough=dict(n=4, kinds=("ask", "rush", "tick", "put"), rush=True),
             covers=["pending", "at once", "fired"], what="changes that directly follow each other"),
    Scenario("at once", history, quick=dict(n=3, kinds=("put", "get", "put, ask", "get, ask")),
             thorough=dict(n=4, kinds=("put", "get", "tick", "put, ask", "get, ask")),
             covers=["pending", "at once", "fired"], what="requests before a change has been noticed"),
    Scenario("multi", history, quick=dict(n=3, multi=True), thorough=dict(n=4, multi=True),
             covers=["pending", "at once", "fired"], what="one of two materials"),
    Scenario("activities", activities, quick=dict(), thorough=dict(amax=5, tmax=4),
             covers=["started", "never"], what="a condition of an activity, levels changed by shifts"),
    Scenario("material", activities, quick=dict(amax=2, tmax=1, multi=True),
             thorough=dict(amax=4, tmax=4, multi=True), covers=["started", "never"],
             what="the same for one of two materials"),
]
