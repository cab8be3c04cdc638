"""C22 Plugins run once per run, in order of priority."""

import pandas as pd

from .base import *  # noqa: F401,F403

KINDS = ["basic", "move", "shift", "sequence", "parallel", "while", "repeat"]
FULL = {c.__name__: type("F" + c.__name__, (ByName, plugins.HasDelayPlugin,
                                            plugins.HasWeatherPluginActivity, c), {})
        for c in (model.BasicActivity, model.SequentialActivity)}


class Rec(model.AbstractPluginClass):
    """Records its calls and waits."""

    def __init__(self, name, calls, pre=0, post=0):
        self.name, self.calls, self.pre, self.post = name, calls, pre, post

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        self.calls.append(("pre", self.name, env.now, activity, activity_log, env, kwargs))
        if self.pre is None:
            return {}
        return self.wait(env, self.pre)

    def post_process(self, env, activity_log, activity, start_preprocessing, start_activity,
                     *args, **kwargs):
        self.calls.append(("post", self.name, env.now, activity, activity_log, env,
                           (start_preprocessing, start_activity)))
        if self.post is None:
            return {}
        return self.wait(env, self.post)

    def wait(self, env, t):
        yield env.timeout(t)

    def validate(self):
        pass


def make(kind, kw, c, d, d2, v, A, B):
    if kind == "basic":
        return Basic(name="a", duration=d, **kw), d, [], 1
    if kind == "move":
        return Move(name="a", mover=v, destination=B, duration=d, **kw), d, [], 1
    if kind == "shift":
        return Shift(name="a", processor=v, origin=A, destination=v, duration=d, amount=1, **kw), d, [], 1
    subs = [Basic(name="i0", duration=d, **kw), Basic(name="i1", duration=d2, **kw)]
    if kind == "sequence":
        return Seq(name="a", sub_processes=subs, **kw), d + d2, subs, 1
    if kind == "parallel":
        return Par(name="a", sub_processes=subs, **kw), mx(d, d2), subs, 1
    if kind == "while":
        return While(name="a", sub_processes=subs, condition_event=[
            {"type": "container", "concept": B, "state": "empty"}], **kw), d + d2, subs, 1
    return Repeat(name="a", sub_processes=subs, repetitions=2, **kw), 2 * (d + d2), subs, 2


def ordered(prios):
    """Indices by priority, equal ones in order of attachment (insertion by hand)."""
    r = []
    for i in range(len(prios)):
        k = len(r)
        while k > 0 and prios[r[k - 1]] > prios[i]:
            k -= 1
        r.insert(k, i)
    return r


def expect(c, calls, names, acts, e, runs, message=""):
    """runs: (begin, start, stop) of each run is derived from begin and the waits."""
    c.check(len(calls) == len(runs), "a plugin is not applied once before and once after each run")
    if len(calls) != len(runs):
        return False
    for x, y in zip(calls, runs):
        c.check(x[0] == y[0] and x[1] == y[1], "plugins are not applied in order of priority")
        if not (x[0] == y[0] and x[1] == y[1]):
            return False
        c.check(x[2] == y[2], "a plugin is applied at another time than its turn")
        c.check(x[3] is y[3] and x[4] is y[3] and x[5] is e, "a plugin is told of another activity")
        if x[0] == "post":
            c.check(x[6][0] == y[4], "a plugin is told another time at which the preparation began")
            c.check(x[6][1] == y[5], "a plugin is told another time at which the run began")
    return True


def one(c, n=3, pmax=2, dmax=3, reps=2):
    """n plugins with any priorities and waits on one activity of each kind, in a loop."""
    e = Env(initial_time=c.int("t0", 0, 2), max_steps=1500)
    kw = dict(env=e, registry={})
    kind = c.choice("kind", KINDS)
    d, d2 = c.int("d", 1, dmax), 1
    t = c.int("t", 1, dmax)
    A, B = site(e, "A", capacity=99, level=50), site(e, "B", capacity=9)
    v = vessel(e, "v", capacity=50)
    a, took, subs, _ = make(kind, kw, c, d, d2, v, A, B)
    calls, ps, prios = [], [], []
    for i in range(n):
        pre = c.int(f"pre{i}", 0, dmax) if i < 2 else c.choice(f"pre{i}", [None, 1])
        post = c.int(f"post{i}", 0, dmax) if i < 2 else c.choice(f"post{i}", [None, 2])
        p = Rec(f"p{i}", calls, pre, post)
        if i == 1 and c.flag("priority not given"):
            a.register_plugin(plugin=p)
            prios.append(0)
        else:
            p_ = c.int(f"prio{i}", 0 if i else -1, pmax)
            prios.append(p_ + 0.25 if i < 2 and c.flag(f"fraction{i}") else p_)
            a.register_plugin(plugin=p, priority=prios[-1])
        ps.append(p)
    first, tail = Basic(name="first", duration=t, **kw), Basic(name="tail", duration=1, **kw)
    loop = Repeat(name="loop", sub_processes=[first, a, tail], repetitions=reps, **kw)
    model.register_processes([loop])
    now = e.now
    run(c, e)
    order = ordered(prios)
    want, runs, tails = [], [], []
    for _ in range(reps):
        now = now + t
        begin = now
        for i in order:
            want.append(("pre", f"p{i}", now, a))
            now = now + (ps[i].pre or 0)
        start, stop = now, now + took
        runs.append((start, stop))
        now = stop
        for i in order:
            want.append(("post", f"p{i}", now, a, begin, start))
            now = now + (ps[i].post or 0)
        tails.append(now)
        now = now + 1
    expect(c, calls, None, None, e, want)
    iv = intervals(a)[0]
    c.check(len(iv) == reps, "the activity does not run in every pass")
    if len(iv) == reps:
        for (s, t_), (x, y) in zip(iv, runs):
            c.check(s == x, "the activity does not start when the last plugin is ready")
            c.check(t_ == y, "the activity does not take its own time")
    it = intervals(tail)[0]
    c.check(len(it) == reps, "what follows does not run in every pass")
    for (s, _), x in zip(it, tails):
        c.check(s == x, "what follows does not start when the last plugin is ready")
    c.cover(kind)
    c.cover("".join(map(str, order)))


def nested(c, dmax=3):
    """Plugins on a structure, on its parts and on a part of a part, each with its own calls."""
    e = Env(max_steps=2500)
    kw = dict(env=e, registry={})
    outer = c.choice("outer", ["sequence", "parallel", "repeat"])
    d = [c.int(f"d{i}", 0, dmax) for i in range(2)]
    x, y = Basic(name="x", duration=d[0], **kw), Basic(name="y", duration=d[1], **kw)
    q = Seq(name="q", sub_processes=[y], **kw)
    o = {"sequence": lambda: Seq(name="o", sub_processes=[x, q], **kw),
         "parallel": lambda: Par(name="o", sub_processes=[x, q], **kw),
         "repeat": lambda: Repeat(name="o", sub_processes=[x, q], repetitions=2, **kw)}[outer]()
    calls = {a.name: [] for a in (x, y, q, o)}
    w = {}
    for a in (x, y, q, o):
        w[a.name] = (c.int("pre_" + a.name, 0, dmax), c.int("post_" + a.name, 0, dmax))
        a.register_plugin(Rec("p", calls[a.name], *w[a.name]), 1)
        a.register_plugin(Rec("r", calls[a.name], None, None), c.choice("r_" + a.name, [0, 1, 2]) if a is q else 1)
    model.register_processes([o])
    run(c, e)
    want = {a: [] for a in calls}

    def go(a, t):
        names = [(p["plugin"].name) for p in a.plugins]
        begin = t
        pr = {"p": w[a.name], "r": (0, 0)}
        seq_ = ["p", "r"]
        if a is q and want_r < 1:
            seq_ = ["r", "p"]
        for n in seq_:
            want[a.name].append(("pre", n, t, a))
            t = t + pr[n][0]
        start = t
        if a is x or a is y:
            t = t + (d[0] if a is x else d[1])
        elif a is q:
            t = go(y, t)
        elif outer == "parallel":
            t = mx(go(x, start), go(q, start))
        else:
            for _ in range(2 if outer == "repeat" else 1):
                t = go(x, t)
                t = go(q, t)
        for n in seq_:
            want[a.name].append(("post", n, t, a, begin, start))
            t = t + pr[n][1]
        return t

    want_r = [p["priority"] for p in q.plugins if p["plugin"].name == "r"][0]
    end = go(o, 0)
    for a in (x, y, q, o):
        expect(c, calls[a.name], None, None, e, want[a.name])
    c.check(e.now == end, "the plan does not end when the last plugin is ready")
    c.cover(outer)


def built_in(c, dmax=4):
    """The weather and delay plugins take their place between other plugins."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    late = c.int("late", 1, 3 * dmax)
    df = pd.DataFrame({"h": [5, 1, 1], "ts": pd.Series([0, late, 1000], dtype=object if c.symbolic else None)})
    k = plugins.WeatherCriterion(name="k", condition="h", window_length=1, maximum=2)
    kind = c.choice("kind", ["BasicActivity", "SequentialActivity"])
    d = c.int("d", 0, dmax)
    fk = dict(name="a", delay_percentage=50, metocean_criteria=k, metocean_df=df, **kw)
    a = (FULL[kind](duration=d, **fk) if kind == "BasicActivity" else
         FULL[kind](sub_processes=[Basic(name="i", duration=d, **kw)], **fk))
    calls = []
    pr = c.int("priority", 0, 4)
    # waits of plugins before the delay plugin are left out: whether they are delayed is open
    pre, post = c.int("pre", 0, dmax), c.int("post", 0, dmax) if pr >= 3 else 0
    a.register_plugin(plugin=Rec("p", calls, pre, post), priority=pr)
    tail = Basic(name="tail", duration=1, **kw)
    model.register_processes([Seq(name="s", sub_processes=[a, tail], **kw)])
    run(c, e)
    # weather 2 (attached first), delay 3; only the delay waits afterwards
    t_pre = 0 if pr < 2 else late
    start = mx(pre, late) if pr < 2 else late + pre
    stop = start + d
    t_post = stop if pr < 3 else stop + d / 2
    want = [("pre", "p", t_pre, a), ("post", "p", t_post, a, 0, start)]
    expect(c, calls, None, None, e, want)
    iv = intervals(a)[0]
    c.check(len(iv) == 1 and bool(and_(iv[0][0] == start, iv[0][1] == stop)), "the activity does not run as planned")
    it = intervals(tail)[0]
    c.check(len(it) == 1 and bool(it[0][0] == stop + d / 2 + post),
            "what follows does not start when the last plugin is ready")
    c.cover("before" if pr < 2 else "between" if pr < 3 else "after")


SCENARIOS = [
    Scenario("one", one, quick=dict(pmax=1), thorough=dict(n=4, pmax=2), covers=KINDS + ["012", "120", "102"],
             what="plugins of any priority on every kind of activity, in a loop"),
    Scenario("nested", nested, quick=dict(dmax=2), thorough=dict(dmax=5),
             covers=["sequence", "parallel", "repeat"], what="plugins on structures and their parts"),
    Scenario("built_in", built_in, quick=dict(), thorough=dict(dmax=9),
             covers=["before", "between", "after"], what="weather and delay between other plugins"),
]
