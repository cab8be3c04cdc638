"""C31 Simulations are reproducible and independent of each other."""

import networkx as nx
import pandas as pd
import shapely.geometry

from openclsim.core.movable import Routable

from . import fleets, trees
from .base import *  # noqa: F401,F403


class RouteShip(Routable, core.Identifiable):
    pass


def told(objs, acts):
    """Everything that was logged, with names in place of ids."""
    name = {a.id: a.name for a in acts}
    r = []
    for o in list(objs) + list(acts):
        for t, a, s, ob, lab in entries(o):
            lab = (lab.get("type"), name.get(lab.get("ref"), lab.get("ref"))) if lab else None
            g = ob.get("geometry")
            r.append((o.name, name.get(a, a), s, lab, None if g is None else (g.x, g.y), t,
                      ob.get("container level")))
    return r


def same(c, one, other, what):
    """Same logs, levels, end and completion."""
    e1, o1, a1, ids = one
    e2, o2, a2, _ = other
    for e in (e1, e2):
        if hasattr(e, "promise"):
            a, want = e.promise
            iv = intervals(a)[0]
            c.check(len(iv) == 1 and bool(iv[0][0] == want), "an activity waits for the weather of another simulation")
    c.check(e1.now == e2.now, f"{what} changes when the project ends")
    la, lb = told(o1, a1), told(o2, a2)
    c.check(len(la) == len(lb), f"{what} changes what is logged")
    for x, y in zip(la, lb):
        c.check(x[:5] == y[:5], f"{what} changes what is logged")
        c.check(x[5] == y[5], f"{what} changes the times that are logged")
        if isinstance(x[6], dict):
            c.check(set(x[6]) == set(y[6]), f"{what} changes the levels that are logged")
            for k in x[6]:
                c.check(x[6][k] == y[6][k], f"{what} changes the levels that are logged")
        else:
            c.check(x[6] == y[6] if x[6] is not None else y[6] is None,
                    f"{what} changes the levels that are logged")
    for x, y in zip(o1, o2):
        for i in ids if hasattr(x, "container") else ():
            for j in (i, i + "_reservations"):
                c.check(level(x, j) == level(y, j), f"{what} changes the levels")
        if hasattr(x, "resource"):
            c.check(x.resource.count == y.resource.count, f"{what} changes who holds objects")
    for x, y in zip(a1, a2):
        c.check(is_finished(x) == is_finished(y), f"{what} changes what completes")


def built(c, kind, dmax=1, amax=2):
    """(environment, objects, activities, materials) of a plan that is ready to run."""
    if kind == "fleet":
        e, objs, sh, tops, ids = fleets.fleet(c, dmax=dmax, amax=amax, sym=(0,))
    elif kind == "cross":
        e, objs, sh, tops, ids = fleets.cross(c, dmax=dmax, amax=2, n=2)
    elif kind == "multi":
        e, objs, sh, tops, ids = fleets.multi(c, amax=1, tmax=1)
    elif kind == "loop":
        e, objs, sh, tops, ids = fleets.loop(c, amax=2, big=3, amounts=(None, 1))
    elif kind == "project":
        e, objs, tops, ids = project(c, dmax, amax)
    elif kind == "offshore":
        e, objs, tops, ids = offshore(c, dmax)
    else:
        table = trees.shapes(True)
        spec = table[c.choice("shape", ["seq(par)", "rep(par)", "par(rep)"])]
        e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
        T = trees.Tree(c, spec, e, {}, dmax=dmax)
        return e, [], model.get_subprocesses([T.top]), (), [T.top]
    return e, objs, model.get_subprocesses(tops), ids, tops


class WBasic(ByName, plugins.HasWeatherPluginActivity, model.BasicActivity):
    pass


def offshore(c, dmax):
    """Work that waits for the weather of its own record."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=900)
    kw = dict(env=e, registry={})
    waves = [c.int(f"wave{i}", 0, 1) for i in range(3)]
    df = pd.DataFrame({"ts": [0, 5, 10, 15, 20], "Hs": pd.Series(waves + [0, 0], dtype=object)})
    k = plugins.WeatherCriterion(name="calm", condition="Hs", maximum=0.5, window_length=3)
    A = site(e, "A", capacity=9, level=c.int("levelA", 1, 2))
    v = vessel(e, "v", capacity=2)
    a = WBasic(name="a", duration=1, metocean_criteria=k, metocean_df=df, **kw)
    d = c.int("d", 0, dmax)
    b = Basic(name="b", duration=d, additional_logs=[A], **kw)
    # the first workable moment of this record
    e.promise = a, d if waves[0] == 0 else 5 if waves[1] == 0 else 10 if waves[2] == 0 else 15
    l = Shift(name="l", processor=v, origin=A, destination=v, duration=1, **kw)
    tops = [Seq(name="s", sub_processes=[b, a, l], **kw)]
    return e, [A, v], tops, ("default",)


def project(c, dmax, amax):
    """References by name, default arguments, shared sites, plugins."""
    e = Env(max_steps=2500)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=9, level=c.int("levelA", 1, amax + 1))
    B = site(e, "B", capacity=9)
    cr = cranes(e, ["crane"])[0]
    v = vessel(e, "v", capacity=c.int("cap", 1, amax), cls=RateVessel, loading_rate=1, unloading_rate=1)
    w = vessel(e, "w", capacity=2)
    single, trip = model.single_run_process(name="trip", origin=A, destination=B, mover=v, loader=cr,
                                            unloader=v, **kw)
    first = trees.DBasic(name="first", duration=c.int("first", 0, dmax), delay_percentage=100, **kw)
    then = Basic(name="then", duration=1, additional_logs=[A],
                 start_event=[{"type": "activity", "name": "first", "state": "done"}], **kw)
    late = Move(name="late", mover=w, destination=B, duration=c.int("late", 0, dmax + 1),
                start_event=[{"or": [{"type": "activity", "name": "then", "state": "done"},
                                     {"type": "container", "concept": B, "state": "ge", "level": 1}]}], **kw)
    swap = Shift(name="swap", processor=cr, origin=B, destination=w, duration=1,
                 start_event=[{"type": "activity", "name": "trip", "state": "done"}], **kw)
    return e, [A, B, cr, v, w], [late, trip, then, first, swap], ("default",)


def finish(c, x, steps=None):
    """Runs the rest, or a number of steps."""
    e = x[0]
    try:
        if steps is None:
            e.run()
        else:
            for _ in range(steps):
                if not e._queue:
                    break
                e.step()
    except StepLimit:
        c.fail("the simulation does not end")
        c.end("steps")
    except ValueError:  # a refused shift ends the simulation
        e._queue.clear()
        c.cover("refused")


def start(c, kind, **k):
    x = built(c, kind, **k)
    model.register_processes(x[4])
    return x


def twice(c, kinds=("fleet", "cross", "multi", "loop", "project", "tree", "offshore"), **k):
    """The same plan again, in a world whose sets have another order."""
    kind = c.choice("plan", list(kinds))
    m = Memo(c)
    x = start(m, kind, **k)
    finish(c, x)
    ByName.salt = c.choice("order", [0, 7, 5, 2])
    try:
        y = start(m.again(), kind, **k)
        finish(c, y)
    finally:
        ByName.salt = 0
    same(c, x[:4], y[:4], "running a plan again")
    c.cover(kind)


class Other(Memo):
    """Another plan with the same names: numbers of its own."""

    def _get(self, f, name, *a, **k):
        if f in ("int", "num"):
            return a[1] if name not in ("levelA", "cap", "cap0", "wave0", "wave1") else a[0]
        if f == "choice":
            return list(a[0])[-1]
        return super()._get(f, name, *a, **k)


def among(c, kinds=("fleet", "loop", "project", "offshore"), most=12, **k):
    """Another simulation with the same names before, or between two steps of, this one."""
    kind = c.choice("plan", list(kinds))
    other = "offshore" if kind == "offshore" else c.choice("other plan", ["project", "fleet"])
    m = Memo(c)
    x = start(m, kind, **k)
    finish(c, x)
    z0 = start(Other(c), other, **k)
    finish(c, z0)
    when = c.choice("when", ["built between", "stepped between", "in turns"])
    if when == "built between":
        y = built(m.again(), kind, **k)
        z = start(Other(c), other, **k)
        model.register_processes(y[4])
        finish(c, y)
        finish(c, z)
    elif when == "stepped between":
        y = start(m.again(), kind, **k)
        z = start(Other(c), other, **k)
        finish(c, y, c.choice("steps", list(range(0, most, 3))))
        finish(c, z)
        finish(c, y)
    else:
        z = start(Other(c), other, **k)
        y = start(m.again(), kind, **k)
        while y[0]._queue:
            finish(c, y, 1)
            finish(c, z, 1)
        finish(c, z)
    same(c, x[:4], y[:4], "another simulation in the same process")
    same(c, z0[:4], z[:4], "another simulation in the same process")
    c.cover(when)


def defaults(c, dmax=3):
    """What is created with default arguments shares nothing, whatever is done with it."""
    e = Env(max_steps=900)
    kw = dict(env=e, registry={})
    mk = {
        "basic": lambda n: Basic(name=n, duration=1, **kw),
        "move": lambda n: Move(name=n, mover=v, destination=A, duration=1, **kw),
        "shift": lambda n: Shift(name=n, processor=v, origin=A, destination=v, amount=1, duration=1, **kw),
    }
    A = site(e, "A", capacity=99, level=50)
    v = vessel(e, "v", capacity=99)
    kind = c.choice("kind", list(mk))
    a, b, k = mk[kind]("a"), mk[kind]("b"), mk[kind]("k")
    calls = []

    class Plug(model.AbstractPluginClass):
        def pre_process(self, env, activity_log, activity, *args, **kwargs):
            calls.append(activity.name)
            yield from []

        def post_process(self, env, activity_log, activity, *args, **kwargs):
            calls.append(activity.name)
            yield from []

    what = c.choice("what is done with it", ["plugin", "logs", "keep", "nothing"])
    if what == "plugin":
        a.register_plugin(Plug(), 3)
    elif what == "logs" and kind == "basic":
        a.additional_logs.append(A)
    elif what == "keep" and kind != "basic":
        a.keep_resources = [v]
    d = c.int("d", 0, dmax)
    w = Basic(name="w", duration=d, **kw)
    model.register_processes([Seq(name="s", sub_processes=[w, b], **kw), a, k])
    run(c, e)
    c.check(all(n == "a" for n in calls), "a plugin of one activity is applied to another one")
    c.check(what != "plugin" or len(calls) == 2, "a plugin of one activity is applied to another one")
    seen = {x[1] for x in entries(A)}
    if kind == "basic":
        c.check(b.id not in seen and k.id not in seen, "logs of one activity are logs of another one")
    c.check(v.resource.count == (1 if what == "keep" and kind != "basic" else 0),
            "an object is kept because another activity keeps it")
    ts = sorted_runs([a, b, k])
    for (s0, t0), (s1, t1) in zip(ts, ts[1:]):
        if kind != "basic":
            c.check(s1 >= t0, "a claim of one activity serves another one")
    lone = Env()
    fresh = {
        "site": lambda: Site(env=lone, name="x", geometry=P0, capacity=5),
        "crane": lambda: Crane(env=lone, name="x", geometry=P0, loading_rate=1, unloading_rate=1),
        "vessel": lambda: Vessel(env=lone, name="x", geometry=P0, capacity=5, compute_v=lambda x: 1),
    }
    for n, f in fresh.items():
        x, y = f(), f()
        c.check(x.id != y.id, "two objects have the same id")
        x.log_entry_v1(t=0, activity_id="q", activity_state=core.LogState.START)
        c.check(len(y.logbook) == 0, "an entry appears in the log of another object")
        q = x.resource.request()
        c.check(q.triggered and y.resource.count == 0, "a claim of one object is a claim of another one")
        if hasattr(x, "container"):
            x.container.put(2)
            c.check(level(y) == 0 and level(x) == 2, "material appears in another object")
            c.check(not y.container.get_container_event(1, "ge").triggered, "an object's condition fires for another one")
    edges = []
    lone.graph = nx.Graph()
    lone.graph.add_node("p", geometry=P0)
    lone.graph.add_node("q", geometry=P1)
    lone.graph.add_edge("p", "q", geometry=shapely.geometry.LineString([P0, P1]))
    x, y = (RouteShip(env=lone, name=n, geometry=P0, route=["p", "q"]) for n in "xy")

    def passes(movable, **more):
        edges.append(movable.name)
        return lone.timeout(0)

    x.on_pass_edge_functions.append(passes)
    lone.process(x.move_over_route(["p", "q"]))
    lone.process(y.move_over_route(["p", "q"]))
    lone.run()
    c.check(edges == ["x"], "what one ship does on its way, another one does too")
    c.check(len({x.id for x in (a, b, k, w, A, v)}) == 6, "two objects have the same id")
    c.cover(kind)
    c.cover(what)


def sorted_runs(acts):
    r = []
    for a in acts:
        for x in intervals(a)[0]:
            i = 0
            while i < len(r) and r[i][0] <= x[0]:
                i += 1
            r.insert(i, x)
    return r


def inputs(c, dmax=2, amax=2):
    """What is handed to one object can be handed to another: it is not used as state, nor changed."""
    e = Env(max_steps=1500)
    la = c.int("level", 0, amax)
    initials = [{"id": "sand", "capacity": 5, "level": la}, {"id": "rock", "capacity": 5, "level": 1}]
    A = MultiSite(env=e, name="A", geometry=P0, initials=initials)
    B = MultiSite(env=e, name="B", geometry=P0, initials=initials)
    cr = cranes(e, ["c0", "c1"])
    extra = [A]
    kw = dict(env=e, registry={})
    cond = [{"type": "time", "start_time": c.int("at", 0, dmax)}]
    d = c.int("d", 0, dmax)
    a = Basic(name="a", duration=d, additional_logs=extra, start_event=cond, **kw)
    b = Basic(name="b", duration=1, additional_logs=extra, start_event=cond, **kw)
    x = c.int("amount", 1, amax)
    s = Shift(name="s", processor=cr[0], origin=A, destination=B, id_="sand", amount=x, duration=1, **kw)
    subs = [Basic(name="p", duration=1, **kw), s]
    r = Seq(name="r", sub_processes=subs, **kw)
    acts = [r, a, b]
    n = len(cond[0])
    model.register_processes(acts)
    try:
        run(c, e)
        c.cover("done")
        moved = mn(x, la)
        c.check(and_(level(A, "sand") == la - moved, level(B, "sand") == la + moved),
                "material appears in another object")
    except ValueError:
        c.check(la == 0, "a shift is refused")
        c.cover("refused")
    c.check(and_(level(A, "rock") == 1, level(B, "rock") == 1), "material appears in another object")
    c.check(len(initials) == 2 and bool(initials[0]["level"] == la) and initials[1]["level"] == 1
            and initials[0]["capacity"] == 5, "the given levels are changed")
    c.check(acts == [r, a, b] and subs[1] is s and len(subs) == 2, "the given activities are changed")
    c.check(len(extra) == 1 and len(cond) == 1 and len(cond[0]) == n, "the given arguments are changed")
    C = MultiSite(env=e, name="C", geometry=P0, initials=initials)
    c.check(and_(level(C, "sand") == la, level(C, "sand_reservations") == la), "the given levels are changed")


SCENARIOS = [
    Scenario("twice", twice, quick=dict(), thorough=dict(dmax=2, amax=3),
             covers=["fleet", "cross", "multi", "loop", "project", "tree", "offshore", "refused"],
             what="a plan and the same plan again"),
    Scenario("among", among, quick=dict(), thorough=dict(dmax=2, most=30),
             covers=["built between", "stepped between", "in turns"],
             what="another simulation with the same names"),
    Scenario("defaults", defaults, quick=dict(), thorough=dict(dmax=6),
             covers=["basic", "move", "shift", "plugin", "logs", "keep", "nothing"],
             what="default arguments"),
    Scenario("inputs", inputs, quick=dict(), thorough=dict(dmax=4, amax=4), covers=["done", "refused"],
             what="arguments given to several objects"),
]
