"""C10 Parallel parts start together and are joined."""

from . import trees
from .base import *  # noqa: F401,F403


def check_par(c, t, name):
    got = t.actual(name)
    runs = t.runs[name]
    c.check(len(got) == len(runs), "a parallel did not run as often as it should")
    part, stray = t.parts(name)
    c.check(stray == 0, "a parallel records something else than its parts")
    for k, (a, b) in enumerate(got):
        if k >= len(runs):
            break
        c.check(a == runs[k][1], "a parallel does not start in its turn")
        ends = []
        for s in t.subs(name):
            act = t.actual(s)
            if k >= len(act) or k >= len(part[s][0]) or k >= len(part[s][1]):
                c.fail("a part of a parallel was not run or not recorded")
                continue
            o = t.opts(s)
            c.check(act[k][0] == trees.begin(a, o),
                    "a part does not start when the parallel starts")
            fin = act[k][1] + (act[k][1] - act[k][0]) * o.get("delay", 0) / 100
            ends.append(fin)
            c.check(part[s][0][k] == a, "the start of a part is recorded at another time")
            c.check(part[s][1][k] == fin, "the end of a part is recorded at another time")
        if ends:
            c.check(b == mx(*ends), "a parallel does not stop with its last part")
        c.check(b == runs[k][2], "a parallel does not stop at the planned time")
    for s in t.subs(name):
        c.check(and_(len(part[s][0]) == len(runs), len(part[s][1]) == len(runs)),
                "a part is not recorded exactly once per run")


def nested(c, waits=False, dmax=3, small=True):
    e = Env(max_steps=2500)
    table = trees.with_waits(c) if waits else trees.shapes(small)
    which = c.choice("shape", [k for k in table if "par" in k or waits])
    t = trees.Tree(c, table[which], e, {}, dmax=dmax)
    model.register_processes([t.top])
    run(c, e)
    t.expect()
    for n in t.order:
        if t.spec[n][0] == "par":
            check_par(c, t, n)
            c.cover("parallel")
            ends = [x[1] for x in t.actual(n)[:1]]
            if ends and sum(1 for s in t.subs(n) if t.actual(s)[0][1] == ends[0]) > 1:
                c.cover("tie")


def working(c, amax=3, dmax=2):
    """Parts that need vessels: one waits for the other's crane or site."""
    e = Env(max_steps=1500)
    reg = {}
    A = site(e, "A", capacity=20, level=10)
    B = site(e, "B", capacity=20, level=0)
    C = site(e, "C", capacity=20, level=0)
    c0, c1 = cranes(e, ["c0", "c1"])
    pair = c.choice("shared", ["site", "crane", "nothing"])
    d = [c.int(f"d{i}", 0, dmax) for i in range(3)]
    kw = dict(env=e, registry=reg)
    A2 = A if pair == "site" else site(e, "A2", capacity=20, level=10)
    x = Shift(name="x", processor=c0, origin=A, destination=B, duration=d[0],
              amount=c.int("a0", 1, amax), **kw)
    y = Shift(name="y", processor=c0 if pair == "crane" else c1, origin=A2, destination=C,
              duration=d[1], amount=c.int("a1", 1, amax), **kw)
    z = Basic(name="z", duration=d[2], **kw)
    p = Par(name="p", sub_processes=[x, y, z], **kw)
    w = Basic(name="w", duration=1, **kw)
    s = Seq(name="s", sub_processes=[p, w], **kw)
    model.register_processes([s])
    run(c, e)
    iv = {a.name: intervals(a)[0] for a in (x, y, z, p, w, s)}
    if any(len(v) != 1 for v in iv.values()):
        c.fail("an activity did not run exactly once")
        return
    ends = [iv[n][0][1] for n in "xyz"]
    c.check(iv["p"][0][1] == mx(*ends), "a parallel does not stop with its last part")
    for a, end in zip((x, y, z), ends):
        rec = [(t, st) for t, aid, st, o, lab in entries(p) if lab and lab.get("ref") == a.id]
        c.check(len(rec) == 2, "a part is not recorded exactly once")
        c.check(and_(rec[0][0] == 0, rec[-1][0] == end), "a part is recorded at another time")
    want = mx(d[0] + d[1], d[2]) if pair != "nothing" else mx(*d)
    c.check(iv["p"][0][1] == want, "a parallel does not stop at the planned time")
    c.check(iv["w"][0][0] == want, "what follows does not start when the parallel stops")
    c.cover(pair)


SCENARIOS = [
    Scenario("nested", nested, quick=dict(small=False), thorough=dict(dmax=9, small=False),
             covers=["parallel", "tie"], what="nested structures, free durations"),
    Scenario("waits", nested, quick=dict(waits=True), thorough=dict(waits=True, dmax=9),
             covers=["parallel", "tie"], what="with start times and delays in the parts"),
    Scenario("working", working, quick=dict(), thorough=dict(amax=6, dmax=5),
             covers=["site", "crane", "nothing"], what="parts that share vessels and sites"),
]
