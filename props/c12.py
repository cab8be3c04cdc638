"""C12 Activities start exactly when their start condition is met."""

from .base import *  # noqa: F401,F403


class World:
    """Things a condition can refer to, with the moment each is fulfilled."""

    def __init__(self, c, e, reg, tmax, amax, parts):
        self.refer = ["name", "ID"] if len(parts) > 1 else ["name", "ID", "name clash", "ID clash"]
        self.c, self.e, self.reg, self.tmax = c, e, reg, tmax
        self.tops, self.k = [], 0
        kw = dict(env=e, registry=reg)
        if "container" in parts:
            self.A = site(e, "A", capacity=20, level=10)
            self.B = site(e, "B", capacity=20, level=0)
            self.a = c.int("shifted", 1, amax)
            self.w = c.int("shift_at", 0, tmax)
            cr = cranes(e, ["crane"])[0]
            self.tops.append(Seq(name="qs", sub_processes=[
                Basic(name="ws", duration=self.w, **kw),
                Shift(name="s", processor=cr, origin=self.A, destination=self.B, duration=1,
                      amount=self.a, **kw)], **kw))

    def time(self):
        """A time, possibly past when the turn comes."""
        self.k += 1
        t = self.c.num(f"time{self.k}", 0, self.tmax, denom=4)
        return {"type": "time", "start_time": t}, t

    def activity(self):
        self.k += 1
        d = self.c.int(f"other{self.k}", 0, self.tmax)
        kw = dict(env=self.e, registry=self.reg)
        by = self.c.choice(f"refer{self.k}", self.refer)
        more = {}
        if by.endswith("clash"):  # the same string as name of one and ID of another
            more = dict(id=f"some{self.k}" if by == "ID clash" else f"any{self.k}")
            self.tops.append(Basic(name=f"some{self.k}", duration=self.tmax + 2, **kw)
                             if by == "ID clash" else
                             Basic(name=f"some{self.k}", id=f"other{self.k}",
                                   duration=self.tmax + 2, **kw))
            by = by.split()[0]
        a = Basic(name=f"other{self.k}", duration=d, **more, **kw)
        self.tops.append(a)
        return {"type": "activity", "state": "done",
                by: a.name if by == "name" else a.id}, d

    def structure(self):
        """Completion of a structure, from within another one."""
        self.k += 1
        kw = dict(env=self.e, registry=self.reg)
        d = [self.c.int(f"part{self.k}{i}", 0, self.tmax) for i in range(2)]
        subs = [Basic(name=f"part{self.k}{i}", duration=x, **kw) for i, x in enumerate(d)]
        if self.c.flag(f"loop{self.k}"):
            a = Repeat(name=f"st{self.k}", sub_processes=subs, repetitions=2, **kw)
            end = 2 * (d[0] + d[1])
        else:
            a = Par(name=f"st{self.k}", sub_processes=subs, **kw)
            end = mx(*d)
        self.tops.append(Seq(name=f"in{self.k}", sub_processes=[a], **kw))
        return {"type": "activity", "state": "done", "name": a.name}, end

    def container(self):
        self.k += 1
        what = self.c.choice(f"level{self.k}", ["delivered", "taken", "at once", "never",
                                                    "any", "something", "nothing"])
        if what == "delivered":
            return ({"type": "container", "concept": self.B, "state": "ge", "level": self.a},
                    self.w + 1)
        if what == "taken":
            return ({"type": "container", "concept": self.A, "state": "lt", "level": 10}, self.w)
        if what == "any":
            return {"type": "container", "concept": self.B, "state": "ge", "level": 0}, 0
        if what == "something":
            return {"type": "container", "concept": self.B, "state": "gt", "level": 0}, self.w + 1
        if what == "nothing":
            return {"type": "container", "concept": self.B, "state": "le", "level": 0}, 0
        if what == "at once":
            return {"type": "container", "concept": self.B, "state": "empty"}, 0
        return {"type": "container", "concept": self.B, "state": "full"}, None


def latest(xs):
    if any(x is None for x in xs):
        return None
    return mx(*xs)


def earliest(xs):
    xs = [x for x in xs if x is not None]
    return mn(*xs) if xs else None


def start(c, atoms, tmax=3, amax=3, turns=("alone", "sequence", "parallel")):
    e = Env(max_steps=900)
    reg = {}
    names = c.choice("atoms", atoms)
    w = World(c, e, reg, tmax, amax, names)
    made = [getattr(w, n)() for n in names]
    ex, ts = [m[0] for m in made], [m[1] for m in made]
    if len(made) == 1:
        expr = c.choice("form", [ex, ex[0], {"and": ex}, {"or": ex}])
        when = ts[0]
    elif len(made) == 2:
        form = c.choice("form", ["list", "and", "or", "or(list)", "list(list)"])
        expr = {"list": ex, "and": {"and": ex}, "or": {"or": ex}, "or(list)": {"or": [ex]},
                "list(list)": [[ex[0]], ex[1]]}[form]
        when = earliest(ts) if form == "or" else latest(ts)
    else:
        form = c.choice("form", ["or(and)", "and(or)", "list(or)", "or(list)", "and(or(and))"])
        expr = {"or(and)": {"or": [{"and": ex[:2]}, ex[2]]},
                "and(or)": {"and": [ex[0], {"or": ex[1:]}]},
                "or(list)": {"or": [ex[:2], ex[2]]},
                "and(or(and))": {"and": [{"or": [{"and": ex[:2]}, ex[2]]}]},
                "list(or)": [ex[0], {"or": ex[1:]}]}[form]
        when = (earliest([latest(ts[:2]), ts[2]])
                if form in ("or(and)", "or(list)", "and(or(and))")
                else latest([ts[0], earliest(ts[1:])]))
    kw = dict(env=e, registry=reg)
    kind = c.choice("activity", ["basic", "sequence"])
    d = 2
    if kind == "basic":
        act = Basic(name="act", duration=d, start_event=expr, **kw)
    else:
        act = Seq(name="act", sub_processes=[Basic(name="inner", duration=d, **kw)],
                  start_event=expr, **kw)
    turn = 0
    where = c.choice("turn", list(turns))
    if where == "alone":
        w.tops.append(act)
    else:
        turn = c.int("turn_at", 0, tmax)
        pre = Basic(name="pre", duration=turn, **kw)
        if where == "sequence":
            w.tops.append(Seq(name="top", sub_processes=[pre, act], **kw))
        else:
            w.tops.append(Seq(name="top", sub_processes=[
                pre, Par(name="par", sub_processes=[act, Basic(name="by", duration=1, **kw)],
                         **kw)], **kw))
    model.register_processes(w.tops)
    run(c, e)
    iv, ns, ne = intervals(act)
    waits = [(t, s) for t, s in own(act) if s.startswith("WAIT")]
    if when is None:
        c.check(ns == 0, "an activity starts although its condition is never met")
        c.cover("never")
        return
    want = mx(turn, when)
    c.check(ns == 1 and ne == 1, "an activity whose condition is met does not run once")
    if ns:
        c.check(iv[0][0] >= turn, "an activity starts before its turn")
        c.check(iv[0][0] >= when, "an activity starts before its condition is met")
        c.check(iv[0][0] == want, "an activity starts later than its condition is met")
        c.check(iv[0][1] == want + d, "an activity does not take its duration")
    if kind == "sequence":
        ii = intervals([a for a in act.sub_processes][0])[0]
        c.check(len(ii) == 1 and ii[0][0] == iv[0][0] if ns else True,
                "a part starts before the condition of its sequence is met")
    if want > turn:
        c.cover("waited")
        c.check(len(waits) == 2 and waits[0][1] == "WAIT_START" and waits[1][1] == "WAIT_STOP",
                "a wait for the condition is not logged once")
        if len(waits) == 2:
            c.check(and_(waits[0][0] == turn, waits[1][0] == want),
                    "a wait for the condition is logged at other times")
    else:
        c.cover("ready")
        c.check(len(waits) == 0, "a wait is logged that did not happen")


ONE = [("time",), ("activity",), ("container",), ("structure",)]
TWO = [("time", "activity"), ("activity", "container"), ("activity", "activity")]
MORE = TWO + [("container", "time"), ("structure", "time"), ("time", "time"),
              ("container", "container")]
THREE = [("time", "activity", "container")]


def again(c, tmax=4, dmax=2):
    """A start condition inside a loop holds for every pass."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    T = c.num("time", 0, tmax, denom=4)
    U = c.num("other", 0, tmax, denom=4)
    o = Basic(name="o", duration=U, **kw)
    d = c.int("d", 1, dmax)
    p = c.int("p", 0, dmax)
    form = c.choice("form", ["time", "activity", "and", "or"])
    tm = {"type": "time", "start_time": T}
    by = {"type": "activity", "state": "done", "name": "o"}
    cond = {"time": [tm], "activity": [by], "and": [tm, by], "or": [{"or": [tm, by]}]}[form]
    when = {"time": T, "activity": U, "and": mx(T, U), "or": mn(T, U)}[form]
    pre = Basic(name="pre", duration=p, **kw)
    a = Basic(name="a", duration=d, start_event=cond, **kw)
    r = Repeat(name="r", repetitions=3, sub_processes=[pre, a], **kw)
    model.register_processes([o, r])
    run(c, e)
    got, ns, ne = intervals(a)
    c.check(ns == 3 and ne == 3, "an activity in a loop does not run in every pass")
    t = 0
    for k, (x, y) in enumerate(got):
        t = t + p
        c.check(x == mx(t, when), "an activity in a loop does not start when its condition is met")
        if t < when:
            c.cover("waited")
        t = mx(t, when) + d
    c.cover(form)


SCENARIOS = [
    Scenario("one", start, quick=dict(atoms=ONE), thorough=dict(atoms=ONE, tmax=9, amax=6),
             covers=["never", "waited", "ready"], what="a single condition"),
    Scenario("two", start, quick=dict(atoms=TWO, tmax=2, amax=2, turns=("alone", "sequence")),
             thorough=dict(atoms=MORE, tmax=5),
             covers=["never", "waited", "ready"], what="two conditions, and / or"),
    Scenario("three", start, quick=dict(atoms=THREE, tmax=2, amax=2, turns=("sequence",)),
             thorough=dict(atoms=THREE, tmax=4), covers=["waited", "ready"],
             what="nested and / or"),
    Scenario("again", again, quick=dict(), thorough=dict(tmax=9, dmax=4),
             covers=["time", "activity", "and", "or", "waited"], what="conditions in loops"),
]
