"""C21 Delays stretch an activity by the given percentage."""

import pandas as pd

from .base import *  # noqa: F401,F403
from .trees import Late


def delayed(cls, *more):
    return type("D" + cls.__name__, (ByName, plugins.HasDelayPlugin) + more + (cls,), {})


DBasic, DMove, DShift = (delayed(x) for x in (model.BasicActivity, model.MoveActivity,
                                              model.ShiftAmountActivity))
DSeq, DPar, DWhile, DRepeat = (delayed(x) for x in (
    model.SequentialActivity, model.ParallelActivity, model.WhileActivity, model.RepeatActivity))
WDBasic = delayed(model.BasicActivity, plugins.HasWeatherPluginActivity)

KINDS = ["basic", "move", "shift", "sequence", "parallel", "while", "repeat"]
TOL = 1e-6


def delays(act):
    return [(t, s) for t, a, s, o, lab in entries(act)
            if lab and lab.get("type") == "plugin" and lab.get("ref") == "delay"]


def make(c, kind, pct, kw, v, A, B, d, d2):
    """An activity that itself takes d (with d2 for a second part); its own time."""
    pk = dict(kw) if pct is None else dict(delay_percentage=pct, **kw)
    if kind == "basic":
        return DBasic(name="a", duration=d, **pk), d, []
    if kind == "move":
        return DMove(name="a", mover=v, destination=B, duration=d, **pk), d, []
    if kind == "shift":
        return DShift(name="a", processor=v, origin=A, destination=v, duration=d, **pk), d, []
    subs = [Basic(name="i0", duration=d, **kw), Basic(name="i1", duration=d2, **kw)]
    if kind == "sequence":
        return DSeq(name="a", sub_processes=subs, **pk), d + d2, subs
    if kind == "parallel":
        return DPar(name="a", sub_processes=subs, **pk), mx(d, d2), subs
    if kind == "while":
        return DWhile(name="a", sub_processes=subs, condition_event=[
            {"type": "container", "concept": B, "state": "empty"}], **pk), d + d2, subs
    return DRepeat(name="a", sub_processes=subs, repetitions=2, **pk), 2 * (d + d2), subs


def plan(c, e, reg, pct, kind, d, d2, t, u, w, at, reps=1):
    kw = dict(env=e, registry=reg)
    A, B = site(e, "A", capacity=9, level=6), site(e, "B", capacity=9, geometry=P0)
    v = vessel(e, "v", capacity=9)
    a, took, subs = make(c, kind, pct, kw, v, A, B, d, d2)
    if at is not None:
        a.start_event = [{"type": "time", "start_time": at}]
    first = Basic(name="first", duration=t, **kw)
    tail = Basic(name="tail", duration=1, **kw)
    top = Seq(name="top", sub_processes=[first, a, tail], **kw)
    # competes for the vessel: before, and while the delay is running
    pre = Move(name="pre", mover=v, destination=B, duration=u, **kw)
    late = Seq(name="late", sub_processes=[Basic(name="lw", duration=w, **kw),
                                           Move(name="lm", mover=v, destination=B, duration=1, **kw)], **kw)
    model.register_processes([pre, top, late])
    return a, took, subs, tail, late.sub_processes[1], pre, v


def check_run(c, a, want, took, pct, tol=TOL):
    iv, ns, ne = intervals(a)
    c.check(ns == 1 and ne == 1, "the activity does not run once")
    if not (ns == 1 and ne == 1):
        return None
    s, t = iv[0]
    c.check(s == want, "the activity does not start when its turn has come")
    c.check(close(t - s, took, tol), "the delay is inside the run of the activity")
    dl = delays(a)
    if pct is None:
        c.check(not dl, "a delay without a percentage")
        return t
    extra = took * pct / 100
    if pct > 0:
        c.check([x for _, x in dl] == ["WAIT_START", "WAIT_STOP"], "the delay is not recorded once")
    if len(dl) == 2:
        c.check(and_(dl[0][0] == t, close(dl[1][0] - t, extra, tol)),
                "the recorded delay is not the percentage of the activity's own time")
    return t + extra


def kinds(c, dmax=4, wmax=8, pcts=(None, 0, 25, 50, 100, 150)):
    """Every kind of activity, with waits before it, a successor and a competitor."""
    e = Env(initial_time=c.int("t0", 0, 3), max_steps=900)
    kind = c.choice("kind", KINDS)
    pct = c.choice("percent", list(pcts))
    d, d2 = c.int("d", 1, dmax), c.int("d2", 0, dmax)
    t, u = c.int("t", 1, dmax), c.int("u", 0, dmax)
    at = c.int("at", 0, 2 * dmax) if c.flag("own start time") else None
    w = c.int("w", 0, wmax) + 0.5
    t0 = e.now
    a, took, subs, tail, lm, pre, v = plan(c, e, {}, pct, kind, d, d2, t, u, w, at)
    run(c, e)
    ready = t0 + t
    if at is not None:
        ready = mx(ready, at)
    uses = kind in ("move", "shift")
    if uses:
        # the competitor may have been granted the vessel first
        ready_v = mx(ready, t0 + u)
        lm_iv = intervals(lm)[0]
        c.check(len(lm_iv) == 1, "the competitor does not run once")
        lwant = mx(t0 + w, t0 + u)
        if ready <= t0 + w:  # first in the queue (or the vessel is free for it)
            end = check_run(c, a, ready_v, took, pct)
            if end is None:
                return
            c.check(close(lm_iv[0][0], mx(t0 + w, end), TOL),
                    "an object is not held during the delay, or longer")
            if t0 + w < end:
                c.cover("competitor waits")
        else:
            c.check(lm_iv[0][0] == lwant, "the competitor does not start when it can")
            end = check_run(c, a, mx(ready, lwant + 1), took, pct)
            if end is None:
                return
    else:
        end = check_run(c, a, ready, took, pct)
        if end is None:
            return
        for s in subs:
            c.check(not delays(s), "a part is delayed itself")
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(close(it[0][0], end, TOL)), "what follows does not start when the delay is over")
    c.cover(kind)


def percent(c, pmax=400):
    """Any percentage."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    pct = c.num("percent", 0, pmax, denom=4)
    d = c.choice("d", [0.25, 1, 2, 10, 3600])
    kind = c.choice("kind", ["basic", "sequence", "move"])
    A, B = site(e, "A", capacity=9, level=6), site(e, "B", capacity=9)
    v = vessel(e, "v", capacity=9)
    a, took, subs = make(c, kind, pct, kw, v, A, B, d, 2)
    tail = Basic(name="tail", duration=1, **kw)
    top = Seq(name="top", sub_processes=[a, tail], **kw)
    model.register_processes([top])
    run(c, e)
    end = check_run(c, a, 0, took, pct, 1e-5)
    if end is None:
        return
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(close(it[0][0], end, 1e-5)), "what follows does not start when the delay is over")
    c.cover(kind)


def waits(c, dmax=4):
    """Waits of other plugins before the activity, whatever it is, are not counted."""
    e = Env(max_steps=1500)
    kw = dict(env=e, registry={})
    kind = c.choice("kind", KINDS)
    pct = c.choice("percent", [50, 100])
    d, d2, by = c.int("d", 0, dmax), c.int("d2", 0, dmax), c.int("by", 0, dmax)
    t, pr = c.int("t", 0, dmax), c.choice("priority", [0, 2])
    A, B = site(e, "A", capacity=9, level=6), site(e, "B", capacity=9)
    v = vessel(e, "v", capacity=9)
    a, took, subs = make(c, kind, pct, kw, v, A, B, d, d2)
    a.register_plugin(Late(by), priority=pr)
    tail = Basic(name="tail", duration=1, **kw)
    top = Seq(name="top", sub_processes=[Basic(name="w", duration=t, **kw), a, tail], **kw)
    model.register_processes([top])
    run(c, e)
    end = check_run(c, a, t + by, took, pct)
    if end is None:
        return
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(close(it[0][0], end, TOL)), "what follows does not start when the delay is over")
    c.cover(kind)
    if by > 0 and took > 0:
        c.cover("waited")


def nested(c, dmax=4):
    """Delays of parts count for the whole; in loops every run is delayed; waits are not counted."""
    e = Env(max_steps=1500)
    kw = dict(env=e, registry={})
    p, q = c.choice("p", [None, 50, 100]), c.choice("q", [None, 25, 200])
    d0, d1 = c.int("d0", 0, dmax), c.int("d1", 1, dmax)
    at = c.int("at", 0, 3 * dmax)
    b = DBasic(name="b", duration=d0, delay_percentage=p,
               start_event=[{"type": "time", "start_time": at}], **kw)
    x = Basic(name="x", duration=d1, **kw)
    r = DRepeat(name="r", sub_processes=[b, x], repetitions=2, delay_percentage=q, **kw)
    tail = Basic(name="tail", duration=1, **kw)
    top = Seq(name="top", sub_processes=[r, tail], **kw)
    model.register_processes([top])
    run(c, e)
    now, want = 0, []
    for _ in range(2):
        s = mx(now, at)
        want.append(s)
        now = s + d0 + (d0 * p / 100 if p is not None else 0) + d1
    iv = intervals(b)[0]
    c.check(len(iv) == 2, "an activity in a loop does not run in every pass")
    if len(iv) == 2:
        for (s, t), x_ in zip(iv, want):
            c.check(and_(close(s, x_, TOL), close(t - s, d0, TOL)), "a part does not run as planned")
        dl = delays(b)
        if p is not None:
            c.check(len(dl) == 4, "the delay is not recorded in every pass")
            if len(dl) == 4:
                for i in range(2):
                    c.check(and_(dl[2 * i][0] == iv[i][1],
                                 close(dl[2 * i + 1][0] - dl[2 * i][0], d0 * p / 100, TOL)),
                            "the delay in a pass is not the percentage of that run")
    if q is not None:
        end = check_run(c, r, 0, now, q)
    else:
        end = check_run(c, r, 0, now, None)
    if end is None:
        return
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(close(it[0][0], end, TOL)), "what follows does not start when the delay is over")
    c.cover(f"{p}/{q}")


def weather(c, dmax=6):
    """Waiting on weather before the activity is not counted."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    lv = c.int("late", 1, dmax)
    df = pd.DataFrame({"h": [5, 1, 1], "ts": pd.Series([0, lv, 1000], dtype=object if c.symbolic else None)})
    k = plugins.WeatherCriterion(name="k", condition="h", window_length=1, maximum=2)
    pct, d = c.choice("percent", [10, 50, 100]), c.int("d", 0, dmax)
    t = c.int("t", 0, dmax)
    a = WDBasic(name="a", duration=d, delay_percentage=pct, metocean_criteria=k, metocean_df=df, **kw)
    tail = Basic(name="tail", duration=1, **kw)
    model.register_processes([Seq(name="s", sub_processes=[Basic(name="w", duration=t, **kw), a, tail], **kw)])
    run(c, e)
    end = check_run(c, a, mx(t, lv), d, pct)
    if end is None:
        return
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(close(it[0][0], end, TOL)), "what follows does not start when the delay is over")
    if t < lv:
        c.cover("waited")


def nothing(c, dmax=4):
    """Without a percentage the plan runs as if it could not be delayed."""
    kind = c.choice("kind", KINDS)
    d, d2, t, u = (c.int(x, 0, dmax) for x in ("d", "d2", "t", "u"))
    logs = []
    for cls in (delayed, None):
        e = Env(max_steps=900)
        a, took, subs, tail, lm, pre, v = plan(c, e, {}, None, kind, d, d2, t, u, 100.5, None)
        if cls is None:
            a.plugins = []
        run(c, e)
        logs.append([(x, s) for y in (a, tail, lm, pre, v) for x, i, s, o, lab in entries(y)])
    c.check(len(logs[0]) == len(logs[1]), "an activity without a percentage is recorded otherwise")
    for x, y in zip(*logs):
        c.check(x[1] == y[1] and bool(x[0] == y[0]), "an activity without a percentage runs otherwise")
    c.cover(kind)


SCENARIOS = [
    Scenario("kinds", kinds, quick=dict(dmax=3, wmax=6, pcts=(None, 50, 100)), thorough=dict(),
             covers=KINDS + ["competitor waits"], what="every kind of activity"),
    Scenario("percent", percent, quick=dict(), thorough=dict(pmax=2000),
             covers=["basic", "sequence", "move"], what="any percentage"),
    Scenario("nested", nested, quick=dict(dmax=3), thorough=dict(dmax=6),
             covers=["None/None", "50/200", "None/25", "100/None"], what="nested delays in a loop"),
    Scenario("weather", weather, quick=dict(), thorough=dict(dmax=20), covers=["waited"],
             what="waits before"),
    Scenario("waits", waits, quick=dict(), thorough=dict(dmax=20), covers=KINDS + ["waited"],
             what="waits of other plugins before"),
    Scenario("nothing", nothing, quick=dict(), thorough=dict(dmax=9), covers=KINDS,
             what="without a percentage"),
]
