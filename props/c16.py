"""C16 Log entries carry the true time and the true state."""

import networkx as nx
import shapely.geometry

from openclsim.core.movable import Routable

from . import fleets, trees
from .base import *  # noqa: F401,F403


class Recorder:
    """Compares every new log entry with the moment and state it was made in."""

    def __init__(self, c, e, acts, objs):
        self.c, self.e, self.logs = c, e, list(acts) + list(objs)
        self.objs = list(objs)
        self.n = {id(o): len(o.logbook) for o in self.logs}
        self.now = e.now
        self.state = self.states()
        self.raw = {id(o): [] for o in self.logs}
        e.watch.append(self.step)

    def states(self):
        r = {}
        for o in self.objs:
            lv = None
            if hasattr(o, "container"):
                ids = o.container.container_list
                lv = {i: o.container.get_level(i) for i in ids}
            r[id(o)] = (lv, getattr(o, "geometry", None))
        return r

    def same(self, o, st, entry):
        """Does the recorded state equal st?"""
        lv, geo = st
        ok = True
        if lv is not None:
            rec = entry["ObjectState"].get("container level")
            if isinstance(rec, dict):
                ok = and_(len(rec) == len(lv), *[rec.get(i, None) == x for i, x in lv.items()])
            else:
                ok = rec == lv["default"] if "default" in lv and rec is not None else False
        if geo is not None:
            g = entry["ObjectState"].get("geometry")
            ok = and_(ok, g is not None and (g.x, g.y) == (geo.x, geo.y))
        return ok

    def step(self):
        c, now, st = self.c, self.e.now, self.states()
        for o in self.logs:
            for en in o.logbook[self.n[id(o)]:]:
                self.raw[id(o)].append(dict(en))
                t = senv.seconds(en["Timestamp"])
                if en["ActivityState"] in ("START", "STOP"):
                    c.check(t == now, "an entry is not stamped with the simulation time in UTC")
                    if id(o) in st:
                        c.check(or_(self.same(o, self.state[id(o)], en), self.same(o, st[id(o)], en)),
                                "an entry does not record the state the object had at that moment")
                        c.cover("state")
                else:
                    # waits are recorded when they are over
                    c.check(t <= now, "a wait is stamped with a time that has not come")
                    if en["ActivityState"] == "WAIT_STOP":
                        c.check(t == now, "the end of a wait is not stamped with the simulation time")
                    c.cover("wait")
            self.n[id(o)] = len(o.logbook)
        self.state, self.now = st, now

    def close(self):
        """The tabular form has exactly the entries, in the order they were made."""
        c = self.c
        self.step()
        for o in self.logs:
            log, book = o.log, self.raw[id(o)]
            c.check(len(o.logbook) == len(book), "entries of the log disappear")
            for k in ("Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel"):
                col = log.get(k)
                c.check(col is not None and len(col) == len(book),
                        "the tabular log has another number of entries")
                for i, en in enumerate(book):
                    if col is None or i >= len(col):
                        continue
                    if k == "Timestamp":
                        c.check(senv.seconds(col[i]) == senv.seconds(en[k]),
                                "the tabular log has another time")
                    elif k == "ObjectState":
                        x, y = col[i].get("container level"), en[k].get("container level")
                        if not isinstance(x, dict) and x is not None:
                            c.check(x == y, "the tabular log has another state")
                    else:
                        c.check(col[i] == en[k], "the tabular log has another entry")
        c.cover("closed")


def after_the_start(c, rec, shifts):
    """The states in a shift: before taking at its start, after delivering at its end."""
    for act, org, dst, i in shifts:
        for o, sign in ((org, -1), (dst, 1)):
            lg = [(s, st) for t, a, s, st, lab in entries(o) if a == act.id and not lab]
            for s, st in lg:
                c.check("container level" in st, "the level is not recorded")


def fleetwise(c, builder, **b):
    c.choice("tz_offset_h", [0, 5, -7])
    m = Memo(c, c.int("start", 0, 10 ** 9))
    e, objs, shifts, tops, ids = builder(m, **b)
    acts = model.get_subprocesses(tops)
    rec = Recorder(c, e, acts, objs)
    model.register_processes(tops)
    try:
        run(c, e)
    except ValueError:
        c.cover("refused")
    rec.close()
    after_the_start(c, rec, shifts)


def of(builder):
    return lambda c, **b: fleetwise(c, builder, **b)


def transport(c, dmax=2, amax=3):
    """Between places: levels and positions change under the log's eyes."""
    c.choice("tz_offset_h", [0, 1, -11])
    t0 = c.int("start", 0, 10 ** 9)
    e = Env(initial_time=t0, max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    A = site(e, "A", capacity=20, level=c.num("levelA", 1, 10, denom=1024), geometry=P1)
    B = site(e, "B", capacity=20, geometry=P2)
    v = vessel(e, "v", capacity=c.num("cap", 1, amax, denom=1024), geometry=P0)
    d = [c.num(f"d{i}", 0, dmax) for i in range(4)]
    lo = Shift(name="l", processor=v, origin=A, destination=v, duration=d[1], **kw)
    un = Shift(name="u", processor=v, origin=v, destination=B, duration=d[3], **kw)
    subs = [Move(name="m", mover=v, destination=A, duration=d[0], **kw), lo,
            Basic(name="b", duration=1, additional_logs=[v, B],
                  start_event=[{"type": "time", "start_time": t0 + c.int("at", 0, 5)}], **kw),
            Move(name="n", mover=v, destination=B, duration=d[2], **kw), un]
    top = Seq(name="q", sub_processes=subs, **kw)
    acts = model.get_subprocesses([top])
    rec = Recorder(c, e, acts, [A, B, v])
    model.register_processes([top])
    cap, la = v.container.get_capacity(), level(A)
    run(c, e)
    rec.close()
    got = mn(cap, la)
    # the vessel, exactly: before and after each of its activities
    want = {"m": [(0, P0), (0, P1)], "l": [(0, P1), (got, P1)], "n": [(got, P1), (got, P2)],
            "u": [(got, P2), (0, P2)]}
    by = {a.id: a.name for a in acts}
    for n, w in want.items():
        st = [(s, o) for t, a, s, o, lab in entries(v) if by.get(a) == n]
        c.check([s for s, _ in st] == ["START", "STOP"], "the vessel does not log a start and stop")
        for (s, o), (lv, p) in zip(st, w):
            c.check(o["container level"] == lv, "the vessel logs another level than it has")
            c.check((o["geometry"].x, o["geometry"].y) == (p.x, p.y),
                    "the vessel logs another position than it has")
    for o, n, w in ((A, "l", (la, la - got)), (B, "u", (0, got))):
        st = [(s, x) for t, a, s, x, lab in entries(o) if by.get(a) == n]
        c.check([s for s, _ in st] == ["START", "STOP"], "the site does not log a start and stop")
        for (s, x), lv in zip(st, w):
            c.check(x["container level"] == lv, "the site logs another level than it has")
    c.cover("exact")


def several(c, dmax=2):
    """More materials: each with its own level in the log."""
    c.choice("tz_offset_h", [0, 9])
    e = Env(initial_time=c.int("start", 0, 10 ** 9), max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    ids = ("sand", "rock", "clay")
    a = {i: c.num("a_" + i, 1, 3, denom=1024) for i in ids}
    A = MultiSite(env=e, name="A", geometry=P0, initials=[
        {"id": i, "capacity": 9, "level": 5} for i in ids])
    B = MultiSite(env=e, name="B", geometry=P0, initials=[
        {"id": i, "capacity": 9, "level": k} for k, i in enumerate(ids)])
    cr = cranes(e, ["c"])[0]
    order = c.choice("order", [ids, ids[::-1]])
    subs = [Shift(name=f"s_{i}", processor=cr, origin=A, destination=B, amount=a[i], id_=i,
                  duration=c.int("d_" + i, 0, dmax), **kw) for i in order]
    top = Seq(name="q", sub_processes=subs, **kw)
    rec = Recorder(c, e, model.get_subprocesses([top]), [A, B, cr])
    model.register_processes([top])
    run(c, e)
    rec.close()
    have = {i: 5 for i in ids}
    for s, i in zip(subs, order):
        st = [o["container level"] for t, x, z, o, lab in entries(A) if x == s.id]
        c.check(len(st) == 2, "the site does not log a start and stop")
        for j in ids:
            c.check(st[0][j] == have[j], "the site logs another level than it has")
            have[j] = have[j] - (a[j] if j == i else 0)
            c.check(st[-1][j] == have[j], "the site logs another level than it has")
    c.cover("exact")


class RouteShip(Routable, core.Identifiable):
    pass


def sailing(c, dmax=1000):
    """A ship on a network enters in its log where it is, now and then."""
    c.choice("tz_offset_h", [0, 6])
    e = Env(initial_time=c.int("start", 0, 10 ** 9), max_steps=300)
    x = [c.int(f"x{i}", 0, dmax) for i in range(3)]
    pts = [senv.place(c, i, m) for i, m in enumerate(x)]
    names = c.choice("nodes", [(0, 1, 2), ("", "b", "c"), ("a", "b", "c")])
    e.graph = nx.Graph()
    for n, p in zip(names, pts):
        e.graph.add_node(n, geometry=p)
    for i in range(2):
        e.graph.add_edge(names[i], names[i + 1], geometry=shapely.geometry.LineString(pts[i:i + 2]))
    route = list(names) if c.flag("there") else list(names)[::-1]
    at = c.choice("from", [route[0], None])
    s = RouteShip(env=e, name="s", geometry=pts[names.index(route[0])], node=at)
    seen = []

    def enter(what):
        s.log_entry_v1(e.now, what, core.LogState.START)
        seen.append((e.now, s.node, (s.geometry.x, s.geometry.y)))

    def passed(movable, **more):
        enter("passed")
        return e.timeout(1)

    s.on_pass_edge_functions.append(passed)

    def go():
        enter("off")
        yield from s.move_over_route(route)
        enter("there")

    e.process(go())
    run(c, e)
    got = entries(s)
    c.check(len(got) == len(seen) == 4, "an entry is not made once")
    for (t, a, z, o, lab), (when, node, xy) in zip(got, seen):
        c.check(close(t, when, 1e-3), "an entry is not stamped with the simulation time in UTC")
        g = o.get("geometry")
        c.check(g is not None and (g.x, g.y) == xy, "an entry misses the position")
        c.check(o.get("node") == node, "an entry misses the node")
    c.check(got[-1][3].get("node") == route[-1], "a ship is not where its route ends")
    c.cover("node" if at is not None else "no node")


class S0(core.HasResource, core.HasContainer, core.Log, core.Locatable, core.Identifiable):
    pass


class S1(core.Locatable, core.HasResource, core.HasContainer, core.Identifiable, core.Log):
    pass


class S2(core.Log, core.Identifiable, core.HasMultiContainer, core.HasResource, core.Locatable):
    pass


class S3(core.HasContainer, core.Movable, core.HasResource, core.Identifiable):
    pass


class S4(core.MultiContainerDependentMovable, core.HasResource, core.Identifiable):
    pass


def mixed(c):
    """The state is complete whatever the order in which a class is composed."""
    e = Env(max_steps=50)
    i = c.choice("class", list(range(5)))
    cls = [S0, S1, S2, S3, S4][i]
    lv = c.int("level", 0, 5)
    more = {"compute_v": lambda f: 1} if i == 4 else {}
    if i in (2, 4):
        o = cls(env=e, name="o", geometry=P1, initials=[
            {"id": "sand", "capacity": 9, "level": lv}, {"id": "rock", "capacity": 9, "level": 1}], **more)
        want = {"sand": lv, "rock": 1}
    else:
        o = cls(env=e, name="o", geometry=P1, capacity=9, level=lv, **more)
        want = lv
    o.log_entry_v1(0, "a", core.LogState.START)
    st = o.logbook[0]["ObjectState"]
    got = st.get("container level")
    if i in (2, 4):
        c.check(isinstance(got, dict) and set(got) == set(want), "an entry misses the level of a material")
        for k in want:
            c.check(got[k] == want[k], "an entry has another level than the object")
    else:
        c.check(got is not None and got == want, "an entry has another level than the object")
    g = st.get("geometry")
    c.check(g is not None and (g.x, g.y) == (P1.x, P1.y), "an entry misses the position")
    c.cover(i)


def bare(c, n=3):
    """Entries made directly, with or without an activity, a label or more state."""
    c.choice("tz_offset_h", [0, 3, -9])
    e = Env(max_steps=50)
    lv = c.int("level", 0, 5)
    o = site(e, "o", capacity=5, level=lv)
    want = []
    for k in range(n):
        t = c.num(f"t{k}", 0, 10 ** 9)
        aid = c.choice(f"activity{k}", [None, "a", "b"])
        st = core.LogState.UNKNOWN if k == 0 else c.choice(f"state{k}", [core.LogState.START, core.LogState.UNKNOWN])
        more = c.choice(f"more{k}", [None, {"draught": 3}])
        lab = None if k else c.choice("label", [None, {"type": "additional log", "ref": "x"}])
        kw = {}
        if st is not core.LogState.UNKNOWN:
            kw["activity_state"] = st
        o.log_entry_v1(t, aid, additional_state=more, activity_label=lab, **kw)
        want.append((t, aid, st.name, dict({"container level": lv}, **(more or {})), lab or {}))
        c.check(len(o.log["Timestamp"]) == k + 1, "a log read in between has another number of entries")
    log = o.log
    c.check(len(o.logbook) == n, "an entry is not made once")
    for k, name in enumerate(("Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel")):
        col = log.get(name)
        c.check(col is not None and len(col) == n, "the tabular log has another number of entries")
        for w, en, x in zip(want, o.logbook, col or []):
            for got in (en[name], x):
                if name == "Timestamp":
                    c.check(senv.seconds(got) == w[0], "an entry is not stamped with the given time in UTC")
                elif name == "ObjectState":
                    c.check(and_(*[got.get(i) == v for i, v in w[3].items()]),
                            "an entry does not record the state of the object")
                else:
                    c.check(got == w[k], "an entry has other contents than given")
    c.cover("bare")


SCENARIOS = [
    Scenario("mixed", mixed, quick=dict(), thorough=dict(), covers=list(range(5)),
             what="objects composed in any order"),
    Scenario("bare", bare, quick=dict(), thorough=dict(n=4), covers=["bare"],
             what="entries made directly"),
    Scenario("transport", transport, quick=dict(), thorough=dict(dmax=5, amax=8),
             covers=["state", "wait", "closed", "exact"], what="one vessel between places"),
    Scenario("sailing", sailing, quick=dict(), thorough=dict(dmax=100000), covers=["node", "no node"],
             what="a ship on a network"),
    Scenario("several", several, quick=dict(), thorough=dict(dmax=4),
             covers=["state", "closed", "exact"], what="three materials"),
    Scenario("fleet", of(fleets.fleet), quick=dict(amax=2, lbmax=0), thorough=dict(sym=(0, 2)),
             covers=["state", "closed", "refused"], what="two vessels between two shared sites"),
    Scenario("loop", of(fleets.loop), quick=dict(big=4), thorough=dict(amax=4, big=8),
             covers=["state", "closed"], what="loop until empty or full"),
]
