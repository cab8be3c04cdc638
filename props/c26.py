"""C26 The step chart shows the logged container levels."""

import openclsim.plot.step_chart as sc

from .base import *  # noqa: F401,F403


class Recorder:
    """Stand-in for pyplot: keeps the lines that are drawn."""

    def __init__(self):
        self.lines, self.figs, self.legends = [], 0, 0

    def figure(self, *a, **k):
        self.figs += 1
        self.lines = []
        return self

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((label, list(x), list(y)))
        return [None]

    def legend(self, *a, **k):
        self.legends += 1

    def __getattr__(self, n):
        return lambda *a, **k: None


def lines_of(c, objs, **k):
    """[(label, x, y)] of what the chart draws."""
    if c.symbolic:
        sc.plt = Recorder()
        sc.get_step_chart(objs, **k)
        return sc.plt.lines
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    sc.plt = plt
    fig = sc.get_step_chart(objs, **k)
    try:
        return [(li.get_label(), list(li.get_xdata(orig=True)), list(li.get_ydata(orig=True)))
                for ax in fig.axes for li in ax.get_lines()]
    finally:
        plt.close(fig)


def spy(o, seen):
    """Remembers the real levels at every entry."""
    real = o.log_entry_v1

    def log(t, *a, **k):
        real(t, *a, **k)
        seen.setdefault(o.name, []).append(
            (t, {i: o.container.get_level(i) for i in o.container.container_list}))

    o.log_entry_v1 = log
    return o


def check_lines(c, objs, seen, names=None, **k):
    lines = lines_of(c, objs, **k)
    want = {}
    for o in objs:
        if seen.get(o.name):
            for i in o.container.container_list:
                n = (names or {}).get(i, "" if (i == "default" and names is None) else i)
                want[f"{o.name} {n}"] = (o, i)
    c.check(sorted(x[0] for x in lines) == sorted(want), "the chart has other lines than containers")
    for lab, xs, ys in lines:
        if lab not in want:
            continue
        o, i = want[lab]
        pts = seen[o.name]
        order = []
        for j, p in enumerate(pts):
            m = len(order)
            while m > 0 and pts[order[m - 1]][0] > p[0]:
                m -= 1
            order.insert(m, j)
        c.check(len(xs) == len(pts) and len(ys) == len(pts), "a line has another number of points than the log")
        for x, y, j in zip(xs, ys, order):
            c.check(senv.seconds(x) == pts[j][0], "a point lies at another moment than was logged")
            c.check(y == pts[j][1][i], "a point lies at another level than was logged")


def single(c, amax=3, dmax=2, more=False):
    """A vessel loads at one site and unloads at another; another one competes."""
    e = Env(initial_time=c.int("t0", 0, 3), max_steps=1500)
    kw = dict(env=e, registry={})
    seen = {}
    A = spy(site(e, "A", capacity=99, level=c.num("level", 1, 2 * amax, denom=1024)), seen)
    B = spy(site(e, "B", capacity=99, level=c.int("levelB", 1 if more else 0, 1)), seen)
    v = spy(vessel(e, "v", capacity=c.num("cap", 1, amax, denom=2)), seen)
    w = spy(vessel(e, "w", capacity=1), seen)
    idle = spy(vessel(e, "idle", capacity=1), seen)
    subs = [Move(name="m", mover=v, destination=A, duration=c.int("dm", 0, dmax), **kw),
            Shift(name="l", processor=v, origin=A, destination=v, duration=1, **kw),
            Move(name="n", mover=v, destination=B, duration=1, **kw),
            Shift(name="u", processor=v, origin=v, destination=B, duration=c.int("du", 0, dmax), **kw)]
    top = While(name="while", sub_processes=subs, condition_event=[
        {"type": "container", "concept": A, "state": "empty"}], **kw)
    acts = [top]
    if more:
        acts.append(Seq(name="s", sub_processes=[
            Basic(name="b", duration=c.int("db", 0, 2 * dmax), **kw),
            Shift(name="other", processor=w, origin=B, destination=w, amount=1, duration=1, **kw)], **kw))
    model.register_processes(acts)
    if c.flag("cut"):
        e.run(until=e.now + 3)
    else:
        run(c, e)
    check_lines(c, [A, B, v, w, idle], seen)
    check_lines(c, [v, A], seen, names={"default": "sand"}, container_map={"default": "sand"})
    check_lines(c, [idle, B], seen, names={"x": "y"}, container_map={"x": "y"})
    c.cover("drawn")


def several(c, amax=3, dmax=2):
    """Several materials, each with its own line."""
    e = Env(max_steps=1500)
    kw = dict(env=e, registry={})
    seen = {}

    def init(o, full):
        return [{"id": i, "capacity": 9 * amax, "level": c.num(f"{o}_{i}", 1, amax, denom=64) if full else 0} for i in (
            ["sand", "rock", "mud"] if o != "B" else ["rock", "sand"])]

    A = spy(MultiSite(env=e, name="A", geometry=P0, nr_resources=2, initials=init("A", True)), seen)
    B = spy(MultiSite(env=e, name="B", geometry=P0, nr_resources=2, initials=init("B", False)), seen)
    S = spy(site(e, "S", capacity=99, level=1), seen)
    acts = []
    for i, k in (("sand", 0), ("rock", 1)):
        cr = Crane(env=e, name=f"crane_{i}", geometry=P0, loading_rate=1, unloading_rate=1)
        acts.append(Seq(name=f"q{k}", sub_processes=[
            Basic(name=f"w{k}", duration=c.int(f"t{k}", 0, dmax), **kw),
            Shift(name=f"s{k}", processor=cr, origin=A, destination=B, id_=i, phase="loading",
                  amount=c.num(f"a{k}", 1, amax, denom=64), **kw)], **kw))
    model.register_processes(acts)
    run(c, e)
    check_lines(c, [A, B, S], seen)
    check_lines(c, [B, A], seen, names={"sand": "fine"}, container_map={"sand": "fine"})
    c.cover("drawn")


def manual(c, steps=5, amax=3, span=3):
    """A log made by hand, its entries not in the order of time."""
    e = Env()
    seen = {}
    if c.flag("several"):
        o = spy(MultiSite(env=e, name="o", geometry=P0, nr_resources=1, initials=[
            {"id": i, "capacity": 99, "level": c.int(f"level_{i}", 0, amax)} for i in ("a", "ab", "b")]), seen)
        ids = ["a", "ab", "b"]
    else:
        o, ids = spy(site(e, "o", capacity=99, level=c.int("level", 0, amax)), seen), ["default"]
    for k in range(steps):
        o.log_entry_v1(c.int(f"t{k}", 0, span), activity_id=f"id-{k % 2}",
                       activity_state=core.LogState.START)
        o.container.put(c.num(f"put{k}", 0, amax, denom=1024), id_=ids[k % len(ids)])
    check_lines(c, [o], seen)


SCENARIOS = [
    Scenario("single", single, quick=dict(amax=2, more=True), thorough=dict(amax=4, dmax=4, more=True), covers=["drawn"],
             what="vessels and sites with one material"),
    Scenario("several", several, quick=dict(), thorough=dict(amax=5, dmax=5), covers=["drawn"],
             what="sites with several materials"),
    Scenario("manual", manual, quick=dict(steps=4), thorough=dict(steps=5), what="hand-made logs"),
]
