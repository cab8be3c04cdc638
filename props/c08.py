"""C08 Every claimed resource is given back and every activity finishes."""

from . import fleets
from .base import *  # noqa: F401,F403
from .c07 import users


def at_rest(c, e, tops, objs, kept=()):
    """Nothing pending, nothing claimed, nobody waiting."""
    acts = model.get_subprocesses(tops)
    for o in objs:
        if any(o is k for k in kept):
            continue
        c.check(len(o.resource.users) == 0, "an object is still claimed at the end")
        c.check(len(o.resource.queue) == 0, "an activity still waits for an object at the end")
    for a in acts:
        c.check(is_finished(a), "an activity that can run does not complete")
        iv, ns, ne = intervals(a)
        c.check(ns == ne and ns >= 1, "an activity that can run does not complete")


def feasible(c, name, objs, b):
    """There is enough of everything for everyone (nothing has to be refused)."""
    A, B = objs[:2]
    if name == "fleet":
        need = 0
        for v in objs[2:]:
            need = need + v.container.get_capacity() * b.get("trips", 1)
        c.assume(level(A) >= need)
        c.assume(B.container.get_capacity() - level(B) >= need)


def fleetwise(c, builder, name, **b):
    e, objs, shifts, tops, ids = builder(c, **b)
    feasible(c, name, objs, b)
    acts = model.get_subprocesses(tops)
    everything = list(users(acts))
    model.register_processes(tops)
    try:
        run(c, e)
    except ValueError:  # a refused shift ends the simulation
        if name == "fleet":
            raise
        c.cover("refused")
        return
    at_rest(c, e, tops, everything)
    c.cover("rest")


def of(builder, name):
    return lambda c, **b: fleetwise(c, builder, name, **b)


def blocked(acts, objs):
    """Activities that hold an object and wait for one another of them holds: a circle."""
    holds, wants = {}, {}
    for a in acts:
        for r, req in getattr(a, "requested_resources", {}).items():
            for o in objs:
                if o.resource is r:
                    (holds if req in r.users else wants).setdefault(a, []).append(o)
    waits = {a: [b for b in holds if b is not a and any(x is y for x in wants.get(a, [])
                                                       for y in holds[b])] for a in holds}
    for a in waits:
        seen, todo = [], list(waits[a])
        while todo:
            b = todo.pop()
            if b is a:
                return True
            if b not in seen:
                seen.append(b)
                todo += waits.get(b, [])
    return False


def opposite(c, dmax=2, tmax=3):
    """Two shifts that need the same two objects in opposite roles."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=9, level=4), site(e, "B", capacity=9, level=4)
    C = site(e, "C", capacity=9, level=4)
    cr = cranes(e, ["c0", "c1"])
    case = c.choice("case", ["two sites", "crane and stock"])
    w = Basic(name="w", duration=c.int("t", 0, tmax), **kw)
    s0 = Shift(name="s0", processor=cr[0], origin=A, destination=B, duration=c.int("d0", 1, dmax),
               amount=1, **kw)
    s1 = Shift(name="s1", processor=cr[1 if case == "two sites" else 0], origin=B,
               destination=A if case == "two sites" else C, duration=c.int("d1", 1, dmax),
               amount=1, **kw)
    q = Seq(name="q", sub_processes=[w, s1], **kw)
    model.register_processes(c.choice("order", [[s0, q], [q, s0]]))
    run(c, e)
    if not is_finished(s0) and not is_finished(s1) and blocked([s0, s1], [A, B, C] + cr):
        c.fail("two shifts that need the same two objects in opposite roles block each other")
        return
    at_rest(c, e, [s0, q], [A, B, C] + cr)
    c.cover("rest")


def group(c, dmax=2, tmax=3, other="move"):
    """A group of activities that keeps its vessel, and others that want it."""
    e = Env(max_steps=1500)
    reg = {}
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=20, level=10), site(e, "B", capacity=20, level=5)
    v = vessel(e, "v", capacity=4, level=2)
    d = [c.int(f"d{i}", 1, dmax) for i in range(4)]
    req = {}
    keep = c.choice("keep", ["vessel", "vessel and site", "nothing", "never given back"])
    one = c.choice("given as", ["list", "object"]) if keep in ("vessel", "never given back") else "list"
    kept = {"vessel": [v], "vessel and site": [v, A], "nothing": [],
            "never given back": [v]}[keep]
    if one == "object":
        kept = v
        c.cover("object")
    last = kept if keep == "never given back" else []
    g = dict(requested_resources=req, **kw)
    subs = [Move(name="m", mover=v, destination=A, duration=d[0], keep_resources=kept, **g),
            Shift(name="l", processor=v, origin=A, destination=v, duration=d[1], amount=1,
                  keep_resources=kept, **g),
            Basic(name="b", duration=c.int("break", 0, 1), **kw),
            Shift(name="u", processor=v, origin=v, destination=A, duration=d[2], amount=1,
                  keep_resources=last, **g)]
    # the first group is free to begin with a move or not
    lead = Basic(name="lead", duration=c.int("lead", 0, 2), **kw)
    tops = [Seq(name="g", sub_processes=[lead] + subs, **kw)]
    t = c.int("t", 0, tmax)
    o = Move(name="o", mover=v, destination=A, duration=d[3], **kw)
    w = Basic(name="w", duration=t, **kw)
    o2 = Shift(name="o2", processor=cranes(e, ["c"])[0], origin=B, destination=A, duration=1,
               amount=1, **kw)
    tops.append(Seq(name="q", sub_processes=[w, o, o2], **kw))
    model.register_processes(tops)
    run(c, e)
    gi = [intervals(s)[0] for s in subs]
    c.check(all(len(x) == 1 for x in gi), "a part of a group does not complete")
    if not all(len(x) == 1 for x in gi):
        return
    oi = intervals(o)[0]
    if keep == "never given back":
        c.check(len(v.resource.users) == 1, "a vessel that is to be kept is given back")
        if oi:
            c.check(oi[0][1] <= gi[0][0][0], "a kept vessel is used by another activity")
            c.cover("before")
        else:
            c.cover("kept")
        return
    at_rest(c, e, tops, [v, A, B])
    if len(oi) != 1:
        return
    lo, hi = (gi[0][0][0], gi[3][0][1])
    if keep != "nothing":
        c.check(or_(oi[0][1] <= lo, oi[0][0] >= hi),
                "a group that keeps its vessel does not hold it without interruption")
        if keep == "vessel and site":  # claimed from the loading on
            o2i = intervals(o2)[0]
            c.check(or_(o2i[0][1] <= gi[1][0][0], o2i[0][0] >= hi),
                    "a group that keeps a site does not hold it without interruption")
    else:
        for x in (gi[0], gi[1], gi[3]):
            c.check(or_(oi[0][1] <= x[0][0], oi[0][0] >= x[0][1]), "a vessel is used twice")
        if oi[0][0] >= lo and oi[0][1] <= hi:
            c.cover("in between")
    c.cover(keep)


def fits(c, amax=3, tmax=2, dmax=2):
    """Activities that wait for content and space; somebody always comes along."""
    e = Env(max_steps=2500)
    reg = {}
    kw = dict(env=e, registry=reg)
    A = site(e, "A", capacity=30, level=20)
    S = site(e, "S", capacity=c.int("capS", amax, amax + 2), level=c.int("levelS", 0, amax))
    B = site(e, "B", capacity=30, level=0)
    c0, c1 = cranes(e, ["c0", "c1"])
    a = [c.int(f"a{i}", 1, amax) for i in range(2)]
    cap = S.container.get_capacity()

    def gate(obj, op, lev):
        return [{"type": "container", "concept": obj, "state": op, "level": lev}]

    into = Shift(name="i", processor=c0, origin=A, destination=S, duration=c.int("d0", 1, dmax),
                 amount=a[0], **kw)
    outof = Shift(name="o", processor=c1, origin=S, destination=B, duration=c.int("d1", 1, dmax),
                  amount=a[1], **kw)
    fill = Repeat(name="fill", repetitions=2, sub_processes=[
        Basic(name="fw", duration=c.int("t0", 0, tmax), start_event=gate(S, "le", cap - a[0]), **kw),
        into], **kw)
    drain = Repeat(name="drain", repetitions=2, sub_processes=[
        Basic(name="dw", duration=c.int("t1", 0, tmax), start_event=gate(S, "ge", a[1]), **kw),
        outof], **kw)
    c.assume(a[0] == a[1])
    c.assume(level(S) + a[0] <= cap)
    tops = [fill, drain]
    model.register_processes(tops)
    try:
        run(c, e)
    except ValueError:
        c.cover("refused")
        return
    at_rest(c, e, tops, [A, S, B, c0, c1])
    c.cover("rest")


def retried(c, amax=2, dmax=2, tmax=2):
    """A group keeps its vessel also when its loading has to be tried again."""
    e, objs, shifts, tops, ids = fleets.retry(c, amax, dmax, tmax)
    v = objs[3]
    _, (lo, _, _, _), (o, _, _, _), (x, _, _, _) = shifts
    model.register_processes(tops)
    try:
        run(c, e)
        at_rest(c, e, tops, objs)
        c.cover("rest")
    except ValueError:
        c.cover("refused")
    m = tops[1].sub_processes[0]
    im, il, ix = intervals(m)[0], intervals(lo)[0], intervals(x)[0]
    if not (im and il and ix):
        return
    c.check(or_(ix[0][0] >= il[0][1], ix[0][1] <= im[0][0]),
            "a group that keeps its vessel does not hold it without interruption")
    if il[0][0] > im[0][1]:
        c.cover("had to wait")


def shared(c, **b):
    """Groups that keep one or two objects over several activities."""
    e, objs, shifts, tops, ids = fleets.groups(c, **b)
    A = objs[0]
    model.register_processes(tops)
    run(c, e)
    at_rest(c, e, tops, objs)
    acts = model.get_subprocesses(tops)
    use = users(acts)
    for g in tops[:2]:
        keep = g.sub_processes[-1]._keep
        for o in keep:
            mine = [a for a in g.sub_processes if a in use[o]]
            runs = [intervals(a)[0] for a in g.sub_processes]
            if not all(runs):
                return
            # from the first part that claims it to the end of the group's last part
            since, until = intervals(mine[0])[0][0][0], intervals(mine[-1])[0][0][1]
            for a in use[o]:
                if a in mine:
                    continue
                for x, y in intervals(a)[0]:
                    c.check(or_(y <= since, x >= until), "a group that keeps an object does not hold it without interruption")
                    c.cover("competitor")
    c.cover("rest")


SCENARIOS = [
    Scenario("shared", shared, quick=dict(), thorough=dict(dmax=3, tmax=4), covers=["rest", "competitor"],
             what="groups that share their claims"),
    Scenario("retried", retried, quick=dict(), thorough=dict(amax=4, tmax=4),
             covers=["rest", "refused", "had to wait"], what="a loading that has to be tried again"),
    Scenario("fleet", of(fleets.fleet, "fleet"), quick=dict(sym=(0, 1, 2), amax=2),
             thorough=dict(sym=(0, 1, 2, 3), trips=2, amax=1, dmax=2), covers=["rest"],
             what="two vessels between two shared sites"),
    Scenario("three", of(fleets.fleet, "fleet"), quick=dict(nv=3, sym=(0,), amax=1),
             thorough=dict(nv=3, sym=(0, 2), amax=1), covers=["rest"],
             what="three vessels between two shared sites"),
    Scenario("crane", of(fleets.crane, "crane"), quick=dict(amax=2, dmax=1, tmax=1), thorough=dict(), covers=["rest"],
             what="a shift that has to be tried again because it waited for its crane"),
    Scenario("opposite", opposite, quick=dict(), thorough=dict(dmax=4, tmax=6), covers=["rest"],
             what="two opposite shifts"),
    Scenario("group", group, quick=dict(), thorough=dict(dmax=4, tmax=8),
             covers=["vessel", "object", "vessel and site", "nothing", "kept", "before", "in between"],
             what="groups that keep a vessel or a site"),
    Scenario("fits", fits, quick=dict(), thorough=dict(amax=5, tmax=4), covers=["rest"],
             what="filling and draining of a small stock"),
]
