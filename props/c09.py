"""C09 Sequences run their parts in order without gaps."""

from . import trees
from .base import *  # noqa: F401,F403


def check_seq(c, t, name):
    """The log of the sequence (or loop) `name` against what its parts did."""
    runs = t.runs[name]
    got = t.actual(name)
    c.check(len(got) == len(runs), "a sequence did not run as often as it should")
    subs = t.subs(name)
    part, stray = t.parts(name)
    c.check(stray == 0, "a sequence records something else than its parts")
    reps = t.spec[name][2] if t.spec[name][0] == "rep" else 1
    k = 0
    for (ready, start, stop, fin), (a, b) in zip(runs, got):
        c.check(a == start, "a sequence does not start in its turn")
        prev = a
        for _ in range(reps):
            for s in subs:
                if k >= len(t.runs[s]) or k >= len(part[s][0]) or k >= len(part[s][1]):
                    c.fail("a part of a sequence was not run")
                    continue
                act = t.actual(s)
                r = t.runs[s][k]
                if k < len(act):
                    c.check(act[k][0] == trees.begin(prev, t.opts(s)),
                            "a part does not start when its predecessor has finished")
                    d = (act[k][1] - act[k][0]) * t.opts(s).get("delay", 0) / 100
                    c.check(part[s][0][k] == prev, "the sequence passes on to a part too early or late")
                    c.check(part[s][1][k] == act[k][1] + d,
                            "the end of a part is recorded at another time")
                    prev = act[k][1] + d
                else:
                    c.fail("a part of a sequence was not run")
            k += 1
        c.check(b == prev, "a sequence does not stop with its last part")
        c.check(b == stop, "a sequence does not stop at the planned time")


def nested(c, waits=False, dmax=3, small=True):
    e = Env(max_steps=2500)
    table = trees.with_waits(c) if waits else trees.shapes(small)
    which = c.choice("shape", list(table))
    t = trees.Tree(c, table[which], e, {}, dmax=dmax)
    model.register_processes([t.top])
    run(c, e)
    t.expect()
    for n in t.order:
        if t.spec[n][0] in ("seq", "rep"):
            check_seq(c, t, n)
            c.cover("sequence" if t.spec[n][0] == "seq" else "loop")


def own_events(c, k=3, dmax=3):
    """Parts with a start condition of their own, which may hold long before
    their turn: they start when both it holds and it is their turn."""
    e = Env(max_steps=600)
    reg = {}
    s = site(e, "S", capacity=8, level=c.num("level", 0, 4))
    moment, amount = c.num("moment", 0, 4), c.num("amount", 1 / 4, 4)
    threshold = c.num("threshold", 0, 6)
    l0 = level(s)

    def fill():
        yield e.timeout(moment)
        yield s.container.put(amount)

    e.process(fill())
    other = model.BasicActivity(env=e, registry=reg, name="other", duration=c.num("other", 0, 4))
    kind = c.choice("condition", ["time", "container", "activity", "either"])
    # always comes true, now or later
    c.assume(l0 + amount >= threshold)
    filled = 0 if l0 >= threshold else moment
    cond, when = {
        "time": ({"type": "time", "start_time": moment}, moment),
        "container": ({"type": "container", "concept": s, "state": "ge", "level": threshold}, filled),
        "activity": ({"type": "activity", "state": "done", "name": "other"}, other.duration),
        "either": ({"or": [{"type": "time", "start_time": moment},
                           {"type": "activity", "state": "done", "name": "other"}]},
                   mn(moment, other.duration)),
    }[kind]
    if c.choice("form", ["bare", "list"]) == "list":
        cond = [cond]
    where = c.choice("part", list(range(k)))
    parts, dur = [], []
    for i in range(k):
        d = c.num(f"d{i}", 0, dmax)
        kw = dict(start_event=cond) if i == where else {}
        parts.append(model.BasicActivity(env=e, registry=reg, name=f"p{i}", duration=d, **kw))
        dur.append(d)
    if c.choice("loop", [False, True]):
        top = model.RepeatActivity(env=e, registry=reg, name="top", sub_processes=parts, repetitions=2)
        rounds = 2
    else:
        top = model.SequentialActivity(env=e, registry=reg, name="top", sub_processes=parts)
        rounds = 1
    model.register_processes([other, top])
    run(c, e)
    t = 0
    got = [intervals(p)[0] for p in parts]
    for r in range(rounds):
        for i in range(k):
            begin = mx(t, when) if i == where else t
            if len(got[i]) != rounds:
                c.fail("a part of a sequence was not run")
                return
            c.check(got[i][r][0] == begin, "a part does not start when its predecessor has finished "
                                           "and its own condition holds")
            t = got[i][r][1]
            c.check(t == begin + dur[i], "a part does not take its own time")
    c.check(intervals(top)[0] == [(0, t)], "a sequence does not stop with its last part")
    c.cover("own condition")


SCENARIOS = [
    Scenario("nested", nested, quick=dict(), thorough=dict(dmax=6, small=False),
             covers=["sequence", "loop"], what="nested structures, free durations"),
    Scenario("waits", nested, quick=dict(waits=True), thorough=dict(waits=True, dmax=6),
             covers=["sequence", "loop"], what="with start times and delays in the parts"),
    Scenario("events", own_events, quick=dict(k=2), thorough=dict(k=3, dmax=6),
             covers=["own condition"], what="parts with start conditions that may hold early"),
]
