"""C14 Registration takes every activity exactly once, in any order."""

import itertools

from .base import *  # noqa: F401,F403


def plan(c, e, reg, tmax, refs):
    """Activities that refer to each other by name or ID, with distinct objects."""
    kw = dict(env=e, registry=reg)
    d = [c.int(f"d{i}", 0, tmax) for i in range(5)]
    A, B = site(e, "A", capacity=20, level=10), site(e, "B", capacity=20)
    cr = cranes(e, ["crane"])[0]
    x = Basic(name="x", duration=d[0], id="id-x", **kw)
    s = Shift(name="s", id="id-s", processor=cr, origin=A, destination=B, duration=d[1], amount=2,
              **kw)
    inner = Basic(name="inner", duration=d[2], id="id-inner", **kw)

    def ref(a):
        return {"type": "activity", "state": "done",
                **({"ID": a.id} if refs == "ID" else {"name": a.name})}

    y = Seq(name="y", id="id-y", sub_processes=[inner, s], start_event=[ref(x)], **kw)
    z = Basic(name="z", id="id-z", duration=d[3], start_event=[{"or": [ref(s), ref(inner)]}], **kw)
    w = Repeat(name="w", id="id-w", repetitions=2, start_event=[ref(z)], sub_processes=[
        Basic(name="u", id="id-u", duration=d[4], **kw)], **kw)
    return [x, y, z, w], [A, B, cr]


def order(c, tmax=2, full=False):
    """Any order of listing gives the same simulation, everything exactly once."""
    m = Memo(c)
    refs = c.choice("refer by", ["name", "ID"])
    perms = list(itertools.permutations(range(4)))
    p = c.choice("order", perms[1:])
    out = []
    for q in (perms[0], p):
        e = Env(max_steps=900)
        reg = {}
        tops, objs = plan(m, e, reg, tmax, refs)
        model.register_processes([tops[i] for i in q])
        acts = sorted(model.get_subprocesses(tops), key=lambda a: a.name)
        c.check(len(acts) == 7, "activities of the plan are missing")
        run(c, e)
        runs = {a.name: intervals(a) for a in acts}
        for a in acts:
            want = 2 if a.name == "u" else 1
            c.check(runs[a.name][1] == want and runs[a.name][2] == want,
                    "an activity was not scheduled exactly once")
            c.check(is_finished(a), "an activity was not completed")
        out.append(([own(a) for a in acts], [entries(o) for o in objs],
                    snapshot(objs[:2]), e.now))
    a, b = out
    for x, y in zip(a[0] + a[1], b[0] + b[1]):
        c.check(len(x) == len(y), "another log in another order of listing")
        for u, v in zip(x, y):
            c.check(and_(u[0] == v[0], u[1] == v[1] if len(u) == 2 else
                         and_(u[1] == v[1], u[2] == v[2])),
                    "another result in another order of listing")
    c.check(a[3] == b[3], "another end in another order of listing")
    for k in a[2]:
        c.check(a[2][k] == b[2][k], "another level in another order of listing")
    c.cover(refs)


def nested(c, tmax=2):
    """Parts listed in any place of the tree are scheduled once; separate calls too."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    acts = [Basic(name=n, duration=c.int("d" + n, 0, tmax), **kw) for n in "abcd"]
    how = c.choice("structure", ["deep", "wide", "loops"])
    a, b, x, y = acts
    if how == "deep":
        top = Seq(name="t", sub_processes=[a, Par(name="p", sub_processes=[
            Seq(name="q", sub_processes=[b, x], **kw), y], **kw)], **kw)
        n = dict.fromkeys("abcd", 1)
    elif how == "wide":
        top = Par(name="t", sub_processes=acts, **kw)
        n = dict.fromkeys("abcd", 1)
    else:
        top = Repeat(name="t", repetitions=2, sub_processes=[a, Repeat(
            name="q", repetitions=2, sub_processes=[b, x], **kw), y], **kw)
        n = dict(a=2, b=4, c=4, d=2)
    extra = Basic(name="e", duration=1, start_event={"type": "activity", "state": "done",
                                                    "name": "t"}, **kw)
    calls = c.choice("calls", ["list", "two calls", "single"])
    if calls == "list":
        model.register_processes([top, extra])
    elif calls == "two calls":
        model.register_processes([top])
        model.register_processes([extra])
    else:
        model.register_processes(extra)
        model.register_processes(top)
    run(c, e)
    for s in acts:
        iv, ns, ne = intervals(s)
        c.check(ns == n[s.name] and ne == n[s.name], "an activity was not scheduled exactly once")
    iv, ns, ne = intervals(top)
    c.check(ns == 1, "a structure was not scheduled exactly once")
    ie, ms, me = intervals(extra)
    c.check(ms == 1 and ie[0][0] == iv[0][1], "an activity was not scheduled exactly once")
    c.cover(how)


def rejected(c, tmax=2):
    """Duplicate names and references to nothing."""
    t0 = c.int("t0", 0, 3)
    e = Env(initial_time=t0, max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    d = [c.int(f"d{i}", 0, tmax) for i in range(4)]
    why = c.choice("why", ["same name", "same name nested", "same name deep", "missing",
                           "missing in and", "missing in or", "missing in list", "missing nested",
                           "missing ID", "missing in condition"])
    names = ["a", "b", "x", "y"]
    ev = None
    if why == "same name":
        names = ["a", "b", "x", "x"]
    elif why == "same name nested":
        names = ["a", "b", "x", "a"]
    elif why == "same name deep":
        names = ["a", "a", "x", "y"]
    gone = {"type": "activity", "state": "done",
            **({"ID": "nothing"} if why == "missing ID" else {"name": "nothing"})}
    if why in ("missing", "missing ID"):
        ev = [gone]
    elif why.startswith("missing in "):
        if c.flag("by ID"):
            gone = {"type": "activity", "state": "done", "ID": "nothing"}
        both = [gone, {"type": "activity", "state": "done", "name": "x"}]
        if c.flag("last"):
            both = both[::-1]
        ev = {"and": [{"and": both}], "or": {"or": [both[0], {"and": [both[1]]}]}, "list": both,
              "condition": [{"or": both}]}[why.split()[-1]]
    late = why == "missing in condition"
    acts = [While(name=n, condition_event=ev, sub_processes=[Basic(name="z", duration=k, **kw)],
                  **kw) if i == 3 and late else
            Basic(name=n, duration=k, start_event=ev if i == 3 and why != "missing nested" else
                  (gone if i == 1 and why == "missing nested" else None), **kw)
            for i, (n, k) in enumerate(zip(names, d))]
    top = Seq(name="t", sub_processes=[acts[0], Par(name="p", sub_processes=[acts[1]], **kw)], **kw)
    plan = c.choice("order", [[top, acts[2], acts[3]], [acts[3], acts[2], top]])
    if late and c.flag("its turn comes later"):
        plan = [x for x in plan if x is not acts[2] and x is not acts[3]]
        plan.append(Seq(name="v", sub_processes=[acts[2], acts[3]], **kw))
    try:
        model.register_processes(plan)
        run(c, e)
    except Exception as x:
        c.check(e.now == t0, "time passed before the plan was rejected" + (
            " (stop condition of a loop)" if late else ""))
        c.cover(why)
        return
    c.fail("a plan that cannot be right is not rejected: " + why)


def circle(c, tmax=2):
    """Activities that wait for each other."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    names = ["a", "b", "x"][:c.choice("length", [2, 3])]
    acts = [Basic(name=n, duration=c.int("d" + n, 0, tmax), start_event=[
        {"type": "activity", "state": "done", "name": names[(i + 1) % len(names)]}], **kw)
        for i, n in enumerate(names)]
    other = Basic(name="other", duration=1, **kw)
    try:
        model.register_processes(acts + [other])
        run(c, e)
    except Exception:
        c.cover("rejected")
        return
    c.fail("activities that wait for each other in a circle are not rejected")


SCENARIOS = [
    Scenario("order", order, quick=dict(tmax=1), thorough=dict(tmax=3),
             covers=["name", "ID"], what="every order of four activities that refer to each other"),
    Scenario("nested", nested, quick=dict(), thorough=dict(tmax=6),
             covers=["deep", "wide", "loops"], what="nested activities, in one or more calls"),
    Scenario("rejected", rejected, quick=dict(), thorough=dict(tmax=6),
             covers=["same name", "same name nested", "same name deep", "missing",
                     "missing in and", "missing in or", "missing in list", "missing nested",
                     "missing ID", "missing in condition"],
             what="duplicate names, missing activities"),
    Scenario("circle", circle, quick=dict(), thorough=dict(), what="circular references"),
]
