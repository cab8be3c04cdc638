"""C32 The single-run helper is the sail-load-sail-unload cycle."""

from .base import *  # noqa: F401,F403


def port(e, name, key, metres, c, **k):
    return site(e, name, geometry=senv.place(c, key, metres), **k)


PARTS = ("sailing empty", "loading", "sailing filled", "unloading")


def by_hand(env, registry, name, origin, destination, mover, loader, unloader,
            start_event=None, stop_event=None, requested_resources=None):
    """The same cycle composed from the activities themselves."""
    kw = dict(env=env, registry=registry)
    if requested_resources is not None:
        kw["requested_resources"] = requested_resources
    subs = [model.MoveActivity(name=f"{name} {PARTS[0]}", mover=mover, destination=origin, **kw),
            model.ShiftAmountActivity(name=f"{name} {PARTS[1]}", processor=loader, origin=origin,
                                      destination=mover, phase="loading", **kw),
            model.MoveActivity(name=f"{name} {PARTS[2]}", mover=mover, destination=destination, **kw),
            model.ShiftAmountActivity(name=f"{name} {PARTS[3]}", processor=unloader, origin=mover,
                                      destination=destination, phase="unloading", **kw)]
    kw.pop("requested_resources", None)
    stop = stop_event or [{"or": [
        {"type": "container", "concept": origin, "state": "empty"},
        {"type": "container", "concept": destination, "state": "full"}]}]
    return subs, model.WhileActivity(name=name, sub_processes=subs, condition_event=stop,
                                     start_event=start_event, **kw)


def trips(c, amax=3, rmax=2, far=3, dependent=False):
    """One vessel, calculated trip by trip."""
    t0 = c.int("t0", 0, 2)
    e = Env(initial_time=t0, max_steps=4000)
    la, cap = c.int("levelA", 1, 2 * amax), c.int("cap", 1, amax)
    lb, free = c.int("levelB", 0, 1), c.int("freeB", 1, 2 * amax)
    x0, dist = c.int("x0", 0, far), c.int("dist", 1, far)
    A = port(e, "A", 0, 0, c, capacity=9 * amax, level=la)
    B = port(e, "B", 1, dist, c, capacity=lb + free, level=lb)
    speed = (lambda f: 1 + f) if dependent else (lambda f: 1)
    v = RateVessel(env=e, name="v", geometry=senv.place(c, 2, x0), capacity=cap, level=0,
                   compute_v=speed, loading_rate=c.choice("loading rate", [1, 2]),
                   unloading_rate=c.choice("unloading rate", [1, 0.5]))
    own_gear = c.flag("own gear")
    cr = Crane(env=e, name="crane", geometry=senv.place(c, 0, 0), loading_rate=1, unloading_rate=1,
               load_manoeuvring=1 / 60)
    single, w = model.single_run_process(env=e, registry={}, name="run", origin=A, destination=B, mover=v,
                                         loader=v if own_gear else cr, unloader=v)
    c.check([s.name for s in single] == [f"run {p}" for p in PARTS], "the parts have other names")
    c.check(w.name == "run" and list(w.sub_processes) == single, "the loop does not consist of the parts")
    model.register_processes([w])
    run(c, e)
    # trip by trip
    t, at, want, vs = t0, x0, {s.id: [] for s in single}, 0
    n = 0
    while n < 20:
        n += 1
        d = at if at >= 0 else -at
        d = d / speed(vs / cap) if dependent else d
        want[single[0].id].append((t, t + d))
        t = t + d
        x = mn(la, cap - vs)
        d = x / v.loading_rate if own_gear else x + 1
        la, vs = la - x, vs + x
        want[single[1].id].append((t, t + d, x))
        t = t + d
        d = dist / speed(vs / cap) if dependent else dist
        want[single[2].id].append((t, t + d))
        t, at = t + d, dist
        x = mn(vs, free)
        free, vs = free - x, vs - x
        lb = lb + x
        want[single[3].id].append((t, t + x / v.unloading_rate, x))
        t = t + x / v.unloading_rate
        if la == 0 or free == 0:
            break
    for s in single:
        got, ns, ne = intervals(s)
        exp = want[s.id]
        c.check(ns == len(exp) and ne == len(exp), "there are more or fewer trips than needed")
        for g, x in zip(got, exp):
            c.check(and_(close(g[0], x[0]), close(g[1], x[1])), "a part of a trip runs at another time")
    c.check(close(e.now, t), "the last trip ends at another time")
    c.check(level(A) == la, "another amount is left at the origin")
    c.check(level(B) == lb, "another amount arrives at the destination")
    c.check(level(v) == vs, "another amount is left on board")
    c.check(is_finished(w), "the loop does not end")
    c.cover(n)


def twin(c, how, amax=2, dmax=2, nv=2):
    """The helper and the loop by hand, in the same world."""
    e = Env(max_steps=3000)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=99, level=c.int("levelA", 1, 2 * amax), nr=c.choice("places", [1, 2]))
    B = site(e, "B", capacity=c.int("capB", 1, 2 * amax), level=0)
    cr = cranes(e, ["crane"])[0]
    tops, acts, vs = [], [], []
    for k in range(nv):
        v = vessel(e, f"v{k}", capacity=c.int(f"cap{k}", 1, amax) if k == 0 else 1,
                   geometry=P0 if k == 0 else P1, cls=RateVessel, loading_rate=1, unloading_rate=2)
        vs.append(v)
        a = {}
        kind = c.choice(f"conditions{k}", ["default", "given", "start", "stop"] if k == 0 else ["default"])
        if kind in ("given", "stop"):
            a["stop_event"] = [{"type": "container", "concept": B, "state": "ge", "level": c.int("stop", 1, amax)}]
        if kind in ("given", "start"):
            a["start_event"] = [{"type": "time", "start_time": c.int("start", 0, dmax)}]
        c.cover(kind)
        single, w = how(name=f"run{k}", origin=A, destination=B, mover=v,
                        loader=v if k == 0 else cr, unloader=cr if c.flag("crane") else v, **a, **kw)
        tops.append(w)
        acts += [w] + list(single)
    return finish(c, e, [A, B, cr] + vs, acts, tops)


def finish(c, e, objs, acts, tops):
    model.register_processes(tops)
    try:
        run(c, e)
        err = None
    except (ValueError, AssertionError) as x:
        err = str(x)
    return e, objs, acts, tops, err


def meeting(c, how, dmax=3):
    """The loader and the unloader are vessels that come to the sites themselves; the
    claims may be given by the caller and shared with another activity."""
    e = Env(max_steps=3000)
    kw = dict(env=e, registry={})
    A = port(e, "A", 0, 0, c, capacity=9, level=c.int("levelA", 1, 2))
    B = port(e, "B", 1, 1000, c, capacity=9)

    def ship(name, key, x, **k):
        return RateVessel(env=e, name=name, geometry=senv.place(c, key, 1000 * x), capacity=9, level=0,
                          compute_v=lambda f: 1000, loading_rate=1, unloading_rate=2, **k)

    v, lo, un = ship("v", 2, 1), ship("lo", 3, 1), ship("un", 4, 0)
    req = c.choice("claims", ["none", "given", "shared", "held"])
    a = {} if req == "none" else dict(requested_resources={})
    if req == "held":  # the caller has claimed the vessel already
        a["requested_resources"][v.resource] = v.resource.request()
    single, w = how(name="run", origin=A, destination=B, mover=v, loader=lo if c.flag("loader") else v,
                    unloader=un if c.flag("unloader") else v, **a, **kw)
    if req == "held":
        for s in single:
            s.keep_resources = [v] if s is not single[-1] or c.flag("to the end") else []
    late = c.int("late", 0, dmax)
    visits = [Move(name="to A", mover=lo, destination=A, duration=c.int("to A", 0, 2), **kw),
              Seq(name="vs", sub_processes=[Basic(name="w", duration=late, **kw),
                                            Move(name="to B", mover=un, destination=B, duration=1, **kw)], **kw)]
    g = dict(a) if req == "shared" else {}
    other = Move(name="other", mover=v, destination=A, duration=1, keep_resources=[v] if c.flag("keep") else [],
                 start_event=[{"type": "time", "start_time": 1}], **g, **kw)
    tops = [w, other] + visits
    c.cover(req)
    return finish(c, e, [A, B, v, lo, un], [w, *single, other, *visits, *visits[1].sub_processes], tops)


def loop(c, how=twin, **b):
    m = Memo(c)
    e1, o1, a1, t1, x1 = how(m, model.single_run_process, **b)
    e2, o2, a2, t2, x2 = how(m.again(), by_hand, **b)
    c.check((x1 is None) == (x2 is None), "only one of them is refused")
    c.cover("refused" if x1 else "completed")
    c.check(e1.now == e2.now, "they end at another time")
    for x, y in zip(a1, a2):
        c.check(x.name == y.name and type(x) is type(y), "the activities differ")
    names = [{a.id: a.name for a in acts} for acts in (a1, a2)]
    for x, y in zip(o1 + a1, o2 + a2):
        p, q = entries(x), entries(y)
        c.check(len(p) == len(q), "they log other things")
        for r, s in zip(p, q):
            c.check(names[0][r[1]] == names[1][s[1]] and r[2] == s[2], "they log other things")
            c.check(r[0] == s[0], "they log other times")
            for k in r[3]:
                if k != "geometry":
                    c.check(r[3][k] == s[3][k], "they log other states")
    for x, y in zip(o1, o2):
        if not hasattr(x, "container"):
            continue
        c.check(level(x) == level(y), "they leave other amounts behind")
        c.check(level(x, "default_reservations") == level(y, "default_reservations"), "they reserve other amounts")
    for x, y in zip(t1, t2):
        c.check(is_finished(x) == is_finished(y), "only one of them finishes")


def meet(c, **b):
    loop(c, meeting, **b)


SCENARIOS = [
    Scenario("trips", trips, quick=dict(amax=2, far=2), thorough=dict(amax=3, far=4), covers=[1, 2, 3],
             what="one vessel, trip by trip"),
    Scenario("dependent", trips, quick=dict(amax=2, far=1, dependent=True),
             thorough=dict(amax=3, far=2, dependent=True), covers=[1, 2], what="a speed that depends on the load"),
    Scenario("loop", loop, quick=dict(), thorough=dict(amax=3, dmax=4),
             covers=["default", "given", "start", "stop", "completed", "refused"], what="the helper against the loop by hand"),
    Scenario("meeting", meet, quick=dict(), thorough=dict(dmax=8),
             covers=["none", "given", "shared", "held", "completed", "refused"], what="loaders and unloaders that come by"),
]
