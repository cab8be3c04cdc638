"""C20 Weather-restricted work starts in the earliest workable window."""

import pandas as pd

from .base import *  # noqa: F401,F403


def weathered(cls):
    return type("W" + cls.__name__, (ByName, plugins.HasWeatherPluginActivity, cls), {})


WBasic, WMove, WShift = (weathered(x) for x in (model.BasicActivity, model.MoveActivity,
                                                model.ShiftAmountActivity))
WSeq, WPar, WWhile, WRepeat = (weathered(x) for x in (
    model.SequentialActivity, model.ParallelActivity, model.WhileActivity, model.RepeatActivity))


def record(c, n, vmax, spacing=10, sym_ts=True, t0=0, odd=False):
    """A record of n values (and another column that must not matter)."""
    vals = [c.int(f"h{i}", 0, vmax) for i in range(n)]
    ts, t = [], t0
    for i in range(n):
        ts.append(t)
        t = t + (c.int(f"gap{i}", 1, spacing) if sym_ts else spacing)
    df = pd.DataFrame({"Hs": pd.Series(vals, dtype=object if c.symbolic else float),
                       "other": [100 - 3 * i for i in range(n)],
                       "ts": pd.Series(ts, dtype=object if c.symbolic and sym_ts else None)})
    if odd:
        df.index = [7 * i + 3 for i in range(n)]
    return df, vals, ts


def criterion(c, vmax, lmax, dmax, kinds=("maximum", "minimum")):
    lim = c.int("limit", 0, vmax)
    length = c.int("window", 0, lmax)
    delay = c.int("delay", 0, dmax)
    kind = c.choice("kind", list(kinds))
    k = plugins.WeatherCriterion(name="crit", condition="Hs", window_length=length,
                                 window_delay=delay, **{kind: lim})
    return k, kind, lim, length, delay


def starts(c, vals, ts, kind, lim, length, delay):
    """[(first, last)] moments at which the work may start, and whether all is workable."""
    good = [bool(v <= lim) if kind == "maximum" else bool(v >= lim) for v in vals]
    if all(good):
        return None
    r, i, n = [], 0, len(vals)
    while i < n:
        if good[i]:
            j = i
            while j < n and good[j]:
                j += 1
            a, b = ts[i], ts[j] if j < n else ts[-1]
            c.assume(b - a != length)  # a window of exactly the length is left open
            if b - a > length:
                r.append((a - delay, b - length - delay))
            i = j
        else:
            i += 1
    return r


def earliest(ws, ready, period, most=9, begin=0):
    if ws is None:
        return mx(ready, begin)
    for k in range(most + 1):
        for a, b in ws:
            if ready <= b + k * period:
                return mx(ready, a + k * period)
    return None


def judge(c, act, ready, want, dur, log=None):
    """The activity waits from ready to want, says so, and runs then."""
    iv, ns, ne = intervals(act)
    c.check(ns == 1 and ne == 1, "the work is not done once")
    if not (ns == 1 and ne == 1):
        return
    c.check(iv[0][0] >= want, "work starts while the weather is not workable")
    c.check(iv[0][0] == want, "work does not start at the earliest workable moment")
    c.check(iv[0][1] - iv[0][0] == dur, "the work takes another time than planned")
    wl = [(t, s) for t, a, s, o, lab in entries(act)
          if lab and lab.get("type") == "plugin" and lab.get("ref") == "waiting on weather"]
    if want > ready:
        c.check([s for t, s in wl] == ["WAIT_START", "WAIT_STOP"], "waiting on weather is not recorded once")
        if len(wl) == 2:
            c.check(and_(wl[0][0] == ready, wl[1][0] == want),
                    "waiting on weather is recorded at other times than it happened")
        c.cover("waits")
    else:
        c.check(not wl, "work that is ready in a workable window waits on weather")
        c.cover("at once")


def one(c, n=4, vmax=3, spacing=5, lmax=6, dmax=2, rmax=12, kinds=("maximum", "minimum"),
        beyond=False, sym_ts=True):
    """One activity, any record, limit, window, delay and moment of being ready."""
    df, vals, ts = record(c, n, vmax, spacing, sym_ts)
    k, kind, lim, length, delay = criterion(c, vmax, lmax, dmax, kinds)
    ready = c.int("ready", 0, rmax)
    if beyond:
        c.assume(ready > ts[-1])
    else:
        c.assume(ready <= ts[-1])
    e = Env(initial_time=ready, max_steps=200)
    a = WBasic(name="a", env=e, registry={}, duration=2, metocean_criteria=k, metocean_df=df)
    model.register_processes([a])
    ws = starts(c, vals, ts, kind, lim, length, delay)
    want = earliest(ws, ready, ts[-1] - ts[0])
    if want is None or not ready <= ts[-1] + 8 * (ts[-1] - ts[0]):
        c.assume(ws == [])  # otherwise: beyond the repetitions the plugin looks at
        try:
            run(c, e)
        except StepLimit:
            raise
        except Exception:  # noqa
            pass
        c.check(intervals(a)[1] == 0, "work starts although the weather never allows it")
        c.cover("never")
        return
    run(c, e)
    judge(c, a, ready, want, 2)
    if ws is None:
        c.cover("always")
    if want > ts[-1]:
        c.cover("next repetition")


def later(c, n=3, vmax=2, tmax=40):
    """The record begins at any time, before or after the work is ready."""
    ready, t0 = c.int("ready", 0, tmax), c.int("begin", 0, tmax)
    df, vals, ts = record(c, n, vmax, 10, sym_ts=False, t0=t0)
    k, kind, lim, length, delay = criterion(c, vmax, 15, 3)
    e = Env(initial_time=ready, max_steps=200)
    a = WBasic(name="a", env=e, registry={}, duration=2, metocean_criteria=k, metocean_df=df)
    model.register_processes([a])
    ws = starts(c, vals, ts, kind, lim, length, delay)
    want = earliest(ws, ready, ts[-1] - ts[0], begin=ts[0])
    c.assume(want is not None)
    run(c, e)
    judge(c, a, ready, want, 2)
    c.cover("after" if t0 > ready else "before")


def limits(c, vmax=3):
    """A criterion has one limit: none or two are refused."""
    a = c.choice("maximum", [None, 0, 1]), c.choice("minimum", [None, 0, 1])
    kw = {}
    for n, x in zip(("maximum", "minimum"), a):
        if x is not None:
            kw[n] = c.int(n + " value", 0, vmax)
    try:
        k = plugins.WeatherCriterion(name="k", condition="Hs", window_length=1, **kw)
    except AssertionError:
        k = None
    c.check((k is not None) == (len(kw) == 1), "a criterion without one limit is accepted, or one with it refused")
    if k is not None:
        for n in ("maximum", "minimum"):
            x = getattr(k, n)
            c.check(x == kw[n] if n in kw else x is None, "a criterion has another limit than given")
        c.check(k.window_delay == 0, "a delay that was not given is applied")
    c.cover(len(kw))


def turn(c, n=4, vmax=2, lmax=8, tmax=9):
    """Ready means: its turn has come and its objects are free; every kind of activity."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    df, vals, ts = record(c, n, vmax, 10, sym_ts=False, odd=True)
    k, kind, lim, length, delay = criterion(c, vmax, lmax, 0)
    what = c.choice("what", ["basic", "move", "shift", "sequence", "parallel", "while", "repeat"])
    t = c.int("t", 0, tmax)
    wk = dict(metocean_criteria=k, metocean_df=df, **kw)
    A, B = site(e, "A", capacity=9, level=5), site(e, "B", capacity=9, geometry=P1)
    v = vessel(e, "v", capacity=3, geometry=P0)
    d = 3
    inner = []
    if what == "basic":
        a = WBasic(name="a", duration=d, **wk)
    elif what == "move":
        a = WMove(name="a", mover=v, destination=B, duration=d, **wk)
    elif what == "shift":
        a = WShift(name="a", processor=v, origin=A, destination=v, duration=d, **wk)
    else:
        inner = [Basic(name="i0", duration=1, **kw), Basic(name="i1", duration=d - 1 if what != "parallel" else d, **kw)]
        if what == "sequence":
            a = WSeq(name="a", sub_processes=inner, **wk)
        elif what == "parallel":
            a = WPar(name="a", sub_processes=inner, **wk)
        elif what == "while":
            a = WWhile(name="a", sub_processes=inner, condition_event=[
                {"type": "container", "concept": B, "state": "empty"}], **wk)
        else:
            a = WRepeat(name="a", sub_processes=inner, repetitions=1, **wk)
    u = c.int("u", 0, tmax)
    other = Move(name="other", mover=v, destination=A, duration=u, **kw)
    w = Basic(name="w", duration=t, **kw)
    tail = Basic(name="tail", duration=1, **kw)
    top = Seq(name="top", sub_processes=[w, a, tail], **kw)
    model.register_processes([other, top])
    ready = mx(t, u) if what in ("move", "shift") else t
    ws = starts(c, vals, ts, kind, lim, length, delay)
    want = earliest(ws, ready, ts[-1] - ts[0])
    c.assume(want is not None)
    run(c, e)
    judge(c, a, ready, want, d)
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(it[0][0] == want + d), "what follows does not wait for the work")
    if inner:
        ii = intervals(inner[0])[0]
        c.check(len(ii) == 1 and bool(ii[0][0] == want), "parts start before the weather allows it")
    c.cover(what)


def again(c, n=4, vmax=2, lmax=6, reps=2):
    """Every repetition looks at the weather anew."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    df, vals, ts = record(c, n, vmax, 10, sym_ts=False)
    k, kind, lim, length, delay = criterion(c, vmax, lmax, 0)
    d = c.int("d", 1, 12)
    a = WBasic(name="a", duration=d, metocean_criteria=k, metocean_df=df, **kw)
    r = Repeat(name="r", sub_processes=[a], repetitions=reps, **kw)
    model.register_processes([r])
    ws = starts(c, vals, ts, kind, lim, length, delay)
    ready, want = 0, []
    for _ in range(reps):
        x = earliest(ws, ready, ts[-1] - ts[0])
        c.assume(x is not None)
        want.append(x)
        if x > ready:
            c.cover("waits")
        ready = x + d
    run(c, e)
    iv, ns, ne = intervals(a)
    c.check(ns == reps and ne == reps, "the work is not done in every repetition")
    if ns == reps:
        for (s, t), x in zip(iv, want):
            c.check(s == x, "work in a loop does not start at the earliest workable moment")


def two(c, n=3, vmax=2, lmax=6):
    """Two activities with their own limits on the same record; the record stays as it is."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    df, vals, ts = record(c, n, vmax, 10, sym_ts=False)
    before = [list(df[x]) for x in df.columns]
    cols = list(df.columns)
    acts, want = [], []
    for i in range(2):
        kind = c.choice(f"kind{i}", ["maximum", "minimum"])
        lim, length = c.int(f"limit{i}", 0, vmax), c.int(f"window{i}", 0, lmax)
        k = plugins.WeatherCriterion(name=f"k{i}", condition="Hs", window_length=length, **{kind: lim})
        acts.append(WBasic(name=f"a{i}", duration=2, metocean_criteria=k, metocean_df=df, **kw))
        x = earliest(starts(c, vals, ts, kind, lim, length, 0), 1, ts[-1] - ts[0])
        c.assume(x is not None)
        want.append(x)
    w = Basic(name="w", duration=1, **kw)
    model.register_processes([Seq(name="s", sub_processes=[w, Par(name="p", sub_processes=acts, **kw)], **kw)])
    run(c, e)
    for a, x in zip(acts, want):
        judge(c, a, 1, x, 2)
    c.check(list(df.columns) == cols, "the record is changed")
    for x, y in zip(before, [list(df[x]) for x in cols]):
        for p, q in zip(x, y):
            c.check(p == q, "the record is changed")


SCENARIOS = [
    Scenario("one", one, quick=dict(n=4, vmax=2), thorough=dict(n=5, spacing=8, lmax=16, dmax=4, rmax=30),
             covers=["waits", "at once", "always", "never", "next repetition"],
             what="one activity, any record, limit, window, delay and ready time"),
    Scenario("long", one, quick=dict(n=5, vmax=2, sym_ts=False, spacing=10, lmax=25, dmax=5, rmax=40),
             thorough=dict(n=7, sym_ts=False, spacing=10, lmax=40, dmax=9, rmax=60),
             covers=["waits", "at once", "always", "never", "next repetition"],
             what="longer records with regular spacing"),
    Scenario("beyond", one, quick=dict(n=3, beyond=True, rmax=30, dmax=1),
             thorough=dict(n=4, beyond=True, rmax=60),
             covers=["waits", "at once", "always"], what="ready after the end of the record"),
    Scenario("later", later, quick=dict(), thorough=dict(n=5, tmax=90),
             covers=["after", "before", "waits", "at once"], what="records that begin at any time"),
    Scenario("limits", limits, quick=dict(), thorough=dict(), covers=[0, 1, 2], what="criteria"),
    Scenario("turn", turn, quick=dict(n=3), thorough=dict(n=4, tmax=40),
             covers=["basic", "move", "shift", "sequence", "parallel", "while", "repeat"],
             what="every kind of activity, in a sequence and competing for a vessel"),
    Scenario("again", again, quick=dict(n=3), thorough=dict(n=4, reps=3), covers=["waits"],
             what="a loop"),
    Scenario("two", two, quick=dict(), thorough=dict(n=4), covers=["waits", "at once"],
             what="two limits on one record"),
]
