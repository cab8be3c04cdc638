"""C18 Moves take distance over speed and end at the destination."""

import networkx as nx
import pyproj
import shapely.geometry

from openclsim.core.movable import Routable

from .base import *  # noqa: F401,F403

GEOD = pyproj.Geod(ellps="WGS84")
# (lon, lat): near and far, other hemispheres, across the date line, near a pole
POINTS = {"amsterdam": (4.9, 52.4), "delft": (4.36, 52.01), "equator": (0.0, 0.0),
          "sydney": (151.2, -33.9), "fiji": (179.5, -17.0), "samoa": (-171.8, -13.8),
          "north": (15.0, 84.0), "rio": (-43.2, -22.9)}


class Ship(ByName, core.Movable, core.HasResource, core.Identifiable):
    """Moves at a fixed speed."""


class RouteShip(ByName, Routable, core.HasResource, core.Identifiable):
    pass


class RouteVessel(ByName, Routable, core.HasContainer, core.HasResource, core.Identifiable):
    pass


class Watch:
    """Position of an object after every step, with the time."""

    def __init__(self, e, o):
        self.e, self.o, self.at = e, o, [(e.now, o.geometry)]
        e.watch.append(lambda: self.at.append((e.now, o.geometry)))

    def check(self, c, legs):
        """legs: (start, stop, from, to); the vessel is at `from` until stop, then at `to`."""
        for t, g in self.at:
            ok = []
            for a, b, p, q in legs:
                ok.append(and_(t <= b, (g.x, g.y) == (p.x, p.y)))
                ok.append(and_(t >= b, (g.x, g.y) == (q.x, q.y)))
            c.check(or_(*ok), "a vessel is somewhere it should not be")
        a, b, p, q = legs[-1]
        c.check((self.o.geometry.x, self.o.geometry.y) == (q.x, q.y),
                "a vessel is not at the destination after its move")
        for a, b, p, q in legs:
            for t, g in self.at:
                if t > a and t < b:
                    c.check((g.x, g.y) == (p.x, p.y), "a vessel is at the destination too early")


def distances(c, dmax=100000, legs=3):
    """Along a line, any distance; fixed speed, engine order, given durations."""
    e = Env(initial_time=c.int("t0", 0, 10), max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    xs = [c.int(f"x{i}", 0, dmax) for i in range(legs)]
    pts = [senv.place(c, i, x) for i, x in enumerate(xs)]
    sites = [site(e, f"S{i}", capacity=9, geometry=p) for i, p in enumerate(pts)]
    speed = c.choice("speed", [1, 2, 0.5, 8])
    kind = c.choice("vessel", ["fixed", "by content"])
    if kind == "fixed":
        v = Ship(env=e, name="v", geometry=pts[0], v=speed)
    else:
        v = vessel(e, "v", capacity=4, level=c.int("level", 0, 4), geometry=pts[0], v=speed)
    subs, want, t = [], [], e.now
    where = list(range(1, legs)) + [0]
    for k, to in enumerate(where):
        eo = c.choice(f"engine{k}", [None, 1, 0.5, 0.25]) if k < 2 else None
        du = c.num(f"duration{k}", 0, 100) if k == 1 and c.flag("given") else None
        ek = {} if eo is None else {"engine_order": eo}
        subs.append(Move(name=f"m{k}", mover=v, destination=sites[to], duration=du, **ek, **kw))
        fr = where[k - 1] if k else 0
        d = xs[fr] - xs[to]
        d = d if d >= 0 else -d
        took = du if du is not None else d / speed / (eo if eo is not None else 1)
        want.append((t, t + took, pts[fr], pts[to]))
        t = t + took
        c.cover("given" if du is not None else "computed")
    top = Seq(name="q", sub_processes=subs, **kw)
    w = Watch(e, v)
    model.register_processes([top])
    run(c, e)
    for s, (a, b, p, q) in zip(subs, want):
        iv, ns, ne = intervals(s)
        c.check(ns == 1 and ne == 1, "a move is not run once")
        if ns == 1 and ne == 1:
            c.check(close(iv[0][1] - iv[0][0], b - a, 0.01),
                    "a move does not take distance over speed")
    if c.symbolic:
        w.check(c, [(intervals(s)[0][0][0], intervals(s)[0][0][1], p, q)
                    for s, (a, b, p, q) in zip(subs, want)])
    else:
        c.check((v.geometry.x, v.geometry.y) == (pts[0].x, pts[0].y), "not at the destination")


def fill(c, most=3, amax=4):
    """Speed follows what the vessel carries, all materials together."""
    e = Env(max_steps=1200)
    reg = {}
    kw = dict(env=e, registry=reg)
    x = c.int("x", 1, 100000)
    p, q = senv.place(c, 0, 0), senv.place(c, 1, x)
    n = c.choice("materials", list(range(0, most + 1)))
    seen = []
    base = c.choice("speed", [1, 2])
    law = c.choice("law", ["constant", "steps"])

    def v_of(f):
        seen.append(f)
        if law == "constant":
            return base
        return base if f < 0.5 else base * 2

    if n == 0:
        ids = ["default"]
        caps = [c.choice("cap", [4, 8])]
        lv = [c.int("level", 0, amax)]
        A = site(e, "A", capacity=20, level=10, geometry=p)
        B = site(e, "B", capacity=20, geometry=q)
        v = vessel(e, "v", capacity=caps[0], level=lv[0], geometry=p, v=v_of)
    else:
        ids = ["m0", "m1", "m2"][:n]
        caps = [4, 8, 4][:n]
        lv = [c.int(f"level{i}", 0, amax) for i in range(n)]
        A = MultiSite(env=e, name="A", geometry=p, initials=[
            {"id": i, "capacity": 20, "level": 10} for i in ids])
        B = MultiSite(env=e, name="B", geometry=q, initials=[
            {"id": i, "capacity": 20, "level": 0} for i in ids])
        v = MultiVessel(env=e, name="v", geometry=p, compute_v=v_of, initials=[
            {"id": i, "capacity": k, "level": x_} for i, k, x_ in zip(ids, caps, lv)])
    k = c.choice("which", list(range(len(ids))))
    add = c.int("add", 1, amax)
    c.assume(lv[k] + add <= caps[k])
    eo = c.choice("engine", [1, 0.5])
    cr = cranes(e, ["crane"])[0]
    cr.geometry = p
    subs = [Move(name="m", mover=v, destination=B, engine_order=eo, **kw),
            Move(name="n", mover=v, destination=A, **kw),
            Shift(name="l", processor=cr, origin=A, destination=v, duration=1, amount=add,
                  id_=ids[k], **kw),
            Move(name="o", mover=v, destination=B, engine_order=eo, **kw)]
    top = Seq(name="q", sub_processes=subs, **kw)
    model.register_processes([top])
    run(c, e)
    f0 = sum(lv) / sum(caps)
    f1 = (sum(lv) + add) / sum(caps)
    for s, f, o in ((subs[0], f0, eo), (subs[1], f0, 1), (subs[3], f1, eo)):
        iv, ns, ne = intervals(s)
        c.check(ns == 1 and ne == 1, "a move is not run once")
        if law == "constant":
            sp = base
        else:
            sp = base if f < 0.5 else base * 2
        c.check(close(iv[0][1] - iv[0][0], x / sp / o, 0.01),
                "a move does not take distance over the speed for what the vessel carries")
    c.check(len(seen) >= 3, "the speed is not asked for each move")
    for f in seen:
        c.check(or_(close(f, f0, 1e-6), close(f, f1, 1e-6)),
                "the fill degree is not over everything the vessel carries")
    c.cover(n)
    if f0 < 0.5 and f1 >= 0.5:
        c.cover("faster")


def globe(c, few=False):
    """The geodesic distance of real places, with the content still free."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    names = list(POINTS)[:5] if few else list(POINTS)
    a = c.choice("from", names)
    b = c.choice("to", names)
    p, q = shapely.geometry.Point(*POINTS[a]), shapely.geometry.Point(*POINTS[b])
    cap = c.int("cap", 1, 8)
    lev = c.int("level", 0, 8)
    c.assume(lev <= cap)
    seen = []
    v = vessel(e, "v", capacity=cap, level=lev, geometry=p,
               v=lambda f: (seen.append(f), 4 if f < 1 else 2)[1])
    B = site(e, "B", capacity=9, geometry=q)
    m = Move(name="m", mover=v, destination=B, **kw)
    model.register_processes([m])
    run(c, e)
    d = GEOD.inv(p.x, p.y, q.x, q.y)[2]
    iv, ns, ne = intervals(m)
    c.check(ns == 1 and ne == 1, "a move is not run once")
    c.check(close(iv[0][1] - iv[0][0], d / (4 if lev < cap else 2), 0.01),
            "a move does not take the geodesic distance over speed")
    c.check((v.geometry.x, v.geometry.y) == (q.x, q.y), "not at the destination after the move")
    c.cover("full" if not lev < cap else "not full")


def routes(c):
    """Along a path or a route over a graph, in both directions."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    way = c.choice("way", ["path", "route"])
    pts = {"a": (0.0, 0.0), "b": (0.3, 0.2), "c": (0.7, 0.1), "d": (1.0, 1.0)}
    P = {k: shapely.geometry.Point(*v) for k, v in pts.items()}
    g = nx.DiGraph()
    for k in pts:
        g.add_node(k, geometry=P[k])
    bend = shapely.geometry.LineString([pts["b"], (0.5, 0.5), pts["c"]])
    for x, y, ln in (("a", "b", shapely.geometry.LineString([pts["a"], pts["b"]])),
                     ("b", "c", bend),
                     ("c", "d", shapely.geometry.LineString([pts["c"], pts["d"]]))):
        g.add_edge(x, y, geometry=ln)
        g.add_edge(y, x, geometry=shapely.geometry.LineString(list(ln.coords)[::-1]))
    e.graph = g
    sub = c.choice("stretch", [("a", "b", "c", "d"), ("a", "b", "c"), ("b", "c"), ("c", "d")]
                   + ([("a", "b", "c", "b", "c", "d")] if way == "route" else []))
    line = []
    for x, y in zip(sub, sub[1:]):
        line += [q for q in g.edges[x, y]["geometry"].coords if not line or q != line[-1]]
    length = sum(GEOD.inv(*p, *q)[2] for p, q in zip(line, line[1:]))
    speed = c.choice("speed", [1, 4])
    back = c.flag("back")
    ends = (sub[-1], sub[0]) if back else (sub[0], sub[-1])
    kws = {"path": shapely.geometry.LineString(line)} if way == "path" else {"route": list(sub)}
    v = RouteShip(env=e, name="v", geometry=P[ends[0]], v=speed, **kws)
    S = [site(e, n, capacity=5, geometry=P[n]) for n in ends]
    t = c.int("t", 0, 5)
    eo = c.choice("engine", [1, 0.5])
    subs = [Basic(name="w", duration=t, **kw),
            Move(name="m", mover=v, destination=S[1], engine_order=eo, **kw),
            Move(name="n", mover=v, destination=S[0], **kw)]
    model.register_processes([Seq(name="q", sub_processes=subs, **kw)])
    run(c, e)
    t1 = length / speed / eo
    iv = [intervals(s)[0] for s in subs]
    c.check(all(len(x) == 1 for x in iv), "a move is not run once")
    c.check(close(iv[1][0][1] - iv[1][0][0], t1, 0.01), "a move does not take the route's length over speed")
    c.check(close(iv[2][0][1] - iv[2][0][0], length / speed, 0.01),
            "a move back does not take the route's length over speed")
    c.check((v.geometry.x, v.geometry.y) == pts[ends[0]], "not at the destination after the move")
    c.cover(way)


def directly(c):
    """Movable.move and Routable without an activity around them."""
    e = Env(max_steps=900)
    x, y = c.int("x", 0, 100000), c.int("y", 0, 100000)
    p, q = senv.place(c, 0, x), senv.place(c, 1, y)
    d = x - y if x >= y else y - x
    speed = c.choice("speed", [1, 2, 0.5])
    eo = c.choice("engine", [1, 0.5])
    how = c.choice("how", ["move", "order of the vessel", "to a geometry", "along a line"])
    B = site(e, "B", capacity=5, geometry=q)
    if how in ("move", "order of the vessel"):
        v = Ship(env=e, name="v", geometry=p, v=speed, engine_order=eo if how != "move" else 1)

        def go():
            yield from v.move(destination=B, engine_order=eo if how == "move" else None)
    else:
        v = RouteShip(env=e, name="v", geometry=p, v=speed, engine_order=eo)

        def go():
            if how == "to a geometry":
                yield from v.move_to_geometry(q)
            else:
                yield from v.pass_linestring(shapely.geometry.LineString([p, q]))
    e.process(go())
    run(c, e)
    c.check(close(e.now, d / speed / eo, 0.01), "a move does not take distance over speed")
    c.check((v.geometry.x, v.geometry.y) == (q.x, q.y), "not at the destination after the move")
    c.cover(how)


def over(c, n=3, dmax=100000):
    """move_over_route: along the edges of a graph, whichever way they were drawn."""
    e = Env(initial_time=c.int("t0", 0, 10), max_steps=900)
    xs = [c.int(f"x{i}", 0, dmax) for i in range(n)]
    pts = [senv.place(c, i, x) for i, x in enumerate(xs)]
    x = c.int("x", 0, dmax)
    start = senv.place(c, n, x)
    way = c.choice("way", ["there", "back"])
    g = nx.Graph() if c.flag("undirected") else nx.DiGraph()
    for i, q in enumerate(pts):
        g.add_node(f"N{i}", geometry=q)
    for i in range(n - 1):
        ends = [pts[i], pts[i + 1]]
        if c.flag(f"drawn{i}"):
            ends = ends[::-1]
        g.add_edge(f"N{i}", f"N{i + 1}", geometry=shapely.geometry.LineString(ends))
        g.add_edge(f"N{i + 1}", f"N{i}", geometry=shapely.geometry.LineString(ends))
    e.graph = g
    order = list(range(n)) if way == "there" else list(range(n))[::-1]
    speed, eo = c.choice("speed", [1, 2]), c.choice("engine", [1, 0.5])
    v = RouteShip(env=e, name="v", geometry=start, v=speed, engine_order=eo)
    hold = c.num("hold", 0, 10)
    passed = []

    def lock(movable, a, b, route, geometry):
        passed.append((a, b, e.now, geometry.coords[0][0], movable.geometry.x))
        return e.timeout(hold)

    funcs = c.choice("functions", [0, 1, 2])
    for _ in range(funcs):
        v.on_pass_edge_functions.append(lock)
    w = Watch(e, v)
    e.process(v.move_over_route([f"N{i}" for i in order]))
    run(c, e)

    def dist(p, q):
        return p - q if p >= q else q - p

    t0 = w.at[0][0]
    legs = [(t0, t0 + dist(x, xs[order[0]]) / speed / eo, start, pts[order[0]])]
    want = []
    t = legs[0][1]
    for a, b in zip(order, order[1:]):
        legs.append((t, t + dist(xs[a], xs[b]) / speed / eo, pts[a], pts[b]))
        t = legs[-1][1]
        for _ in range(funcs):
            want.append((a, b, t))
            t = t + hold
    c.check(close(e.now, t, 0.01), "a route does not take its length over speed")
    c.check((v.geometry.x, v.geometry.y) == (pts[order[-1]].x, pts[order[-1]].y),
            "not at the end of the route")
    c.check(v.node == f"N{order[-1]}", "the node is not the end of the route")
    c.check(len(passed) == len(want), "a function for passing an edge is not called once per edge")
    for (a, b, at, first, here), (i, j, wt) in zip(passed, want):
        c.check((a, b) == (f"N{i}", f"N{j}"), "an edge is passed out of order")
        c.check(close(at, wt, 0.01), "an edge is passed at the wrong moment")
        if dist(xs[i], xs[j]) > 0:
            c.check(first == pts[i].x, "the line of an edge does not start where the vessel comes from")
            c.check(here == pts[j].x, "a vessel has passed an edge and is not at its end")
    if c.symbolic:
        w.check(c, legs)
    c.cover(way)


def underway(c, tmax=6):
    """Someone looks at the vessel at any moment, also while it is under way."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    pts = [P0, P1, P2]
    S = [site(e, f"S{i}", capacity=9, geometry=p) for i, p in enumerate(pts)]
    v = vessel(e, "v", capacity=4, geometry=pts[0])
    d = [c.num(f"d{i}", 0, tmax) for i in range(2)]
    look = c.num("look", 0, 2 * tmax)
    dwell = c.num("dwell", 0, tmax)
    moves = [Move(name=f"m{i}", mover=v, destination=S[i + 1], duration=d[i], **kw) for i in range(2)]
    w = Basic(name="w", duration=dwell, **kw)
    l = Basic(name="look", duration=look, additional_logs=[v], **kw)
    w2 = Watch(e, v)
    tops = [Seq(name="q", sub_processes=[moves[0], w, moves[1]], **kw), l]
    model.register_processes(tops if c.flag("first") else tops[::-1])
    run(c, e)
    seen = [o["geometry"] for t, a, s, o, lab in entries(v) if a == l.id and s == "STOP"]
    c.check(len(seen) == 1, "an additional log is not kept")
    a, b = d[0], d[0] + dwell + d[1]
    for g in seen:
        xy = (g.x, g.y)
        c.check(xy == (P0.x, P0.y) if look < a else True, "a vessel is at the destination too early")
        c.check(xy == (P1.x, P1.y) if and_(look > a, look < b) else True,
                "a vessel is somewhere it should not be")
        c.check(xy == (P2.x, P2.y) if look > b else True, "a vessel is not at the destination after its move")
        if look > a and look < b:
            c.cover("under way")
    w2.check(c, [(0, a, P0, P1), (a + dwell, b, P1, P2)])


SCENARIOS = [
    Scenario("underway", underway, quick=dict(), thorough=dict(tmax=30), covers=["under way"],
             what="looking at a vessel at any moment"),
    Scenario("distances", distances, quick=dict(), thorough=dict(dmax=10 ** 7, legs=4),
             covers=["given", "computed"], what="any distances along a line"),
    Scenario("fill", fill, quick=dict(), thorough=dict(amax=8),
             covers=[0, 1, 2, 3, "faster"], what="speed by fill degree"),
    Scenario("globe", globe, quick=dict(), thorough=dict(),
             covers=["full", "not full"], what="between places all over the world"),
    Scenario("routes", routes, quick=dict(), thorough=dict(), covers=["path", "route"],
             what="along paths and routes"),
    Scenario("over", over, quick=dict(), thorough=dict(n=4, dmax=10 ** 7),
             covers=["there", "back"], what="over the edges of a graph"),
    Scenario("directly", directly, quick=dict(), thorough=dict(),
             covers=["move", "order of the vessel", "to a geometry", "along a line"],
             what="moves without activities"),
]
