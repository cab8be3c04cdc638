"""Configurations in which several activities shift material between shared
objects.  Each builder returns (env, objects, shifts, top activities, materials);
a shift is (activity, origin, destination, material)."""

from .base import *  # noqa: F401,F403


def fleet(c, nv=2, trips=1, dmax=3, amax=3, sym=(0,), lbmax=1, keep=False):
    """Vessels sail, load, sail, unload between a shared origin and destination."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
    reg = {}
    la = c.num("levelA", 0, max(2, nv) * amax)
    capb = c.num("capB", 1, max(2, nv) * amax)
    lb = c.num("levelB", 0, lbmax)
    A = site(e, "A", capacity=4 * amax, level=la)
    B = site(e, "B", capacity=capb, level=lb)
    vs, shifts, tops = [], [], []
    for i in range(nv):
        v = vessel(e, f"v{i}", capacity=c.num(f"cap{i}", 1, amax))
        vs.append(v)
        kw = dict(env=e, registry=reg)
        d = [c.num(f"d{i}{j}", 1, dmax) if j in sym else 1 + (i + j) % 2 for j in range(4)]
        lo = Shift(name=f"l{i}", processor=v, origin=A, destination=v, duration=d[1], **kw)
        un = Shift(name=f"u{i}", processor=v, origin=v, destination=B, duration=d[3], **kw)
        subs = [Move(name=f"m{i}", mover=v, destination=A, duration=d[0], **kw), lo,
                Move(name=f"n{i}", mover=v, destination=B, duration=d[2], **kw), un]
        shifts += [(lo, A, v, "default"), (un, v, B, "default")]
        tops.append(Repeat(name=f"r{i}", sub_processes=subs, repetitions=trips, env=e,
                           registry=reg) if trips > 1 else
                    Seq(name=f"r{i}", sub_processes=subs, env=e, registry=reg))
    return e, [A, B] + vs, shifts, tops, ("default",)


def cross(c, dmax=2, amax=3, n=3, tmax=1, dsym=True):
    """Shifts in both directions between two sites, with requested amounts."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
    reg = {}
    A = site(e, "A", capacity=c.num("capA", 1, 2 * amax), level=c.int("levelA", 0, 2))
    B = site(e, "B", capacity=2 * amax, level=c.num("levelB", 0, amax))
    c.assume(A.container.get_level() <= A.container.get_capacity())
    cr = cranes(e, ["c0", "c1", "c2"][:n])
    shifts, tops = [], []
    for i in range(n):
        o, d = (A, B) if i % 2 == 0 else (B, A)
        s = Shift(name=f"s{i}", env=e, registry=reg, processor=cr[i], origin=o, destination=d,
                  duration=c.num(f"d{i}", 1, dmax) if dsym else 1 + i % 2,
                  amount=c.num(f"a{i}", 1, amax))
        w = Basic(name=f"w{i}", env=e, registry=reg, duration=c.num(f"t{i}", 0 if i == 1 else tmax, tmax * i + 2) if i else 0)
        shifts.append((s, o, d, "default"))
        tops.append(Seq(name=f"q{i}", env=e, registry=reg, sub_processes=[w, s]))
    return e, [A, B], shifts, tops, ("default",)


def chain(c, amax=3, tmax=2, crane_shared=True, dmax=2):
    """A -> S and S -> B at the same time through a small stock S; the shifts out
    of S wait for content, the ones into S for space."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=2500)
    reg = {}
    A = site(e, "A", capacity=9, level=9)
    S = site(e, "S", capacity=c.num("capS", amax, amax + 2), level=c.int("levelS", 0, amax))
    B = site(e, "B", capacity=9, level=0)
    c0, c1 = cranes(e, ["c0", "c1"])
    p = [c0, c1, c0 if crane_shared else c1]
    plan = [(A, S), (S, B), (A, S)]
    shifts, tops = [], []
    for i, (o, d) in enumerate(plan):
        a = c.num(f"a{i}", 1, amax)
        cond = [{"type": "container", "concept": o, "state": "ge", "level": a},
                {"type": "container", "concept": d, "state": "lt",
                 "level": d.container.get_capacity()}]
        s = Shift(name=f"s{i}", env=e, registry=reg, processor=p[i], origin=o, destination=d,
                  duration=c.num(f"d{i}", 1, dmax), amount=a)
        w = Basic(name=f"w{i}", env=e, registry=reg, duration=c.num(f"t{i}", 0, tmax),
                  start_event=cond)
        shifts.append((s, o, d, "default"))
        tops.append(Seq(name=f"q{i}", env=e, registry=reg, sub_processes=[w, s]))
    return e, [A, S, B], shifts, tops, ("default",)


def multi(c, amax=2, tmax=2):
    """Two materials in the same containers, shifted at the same time by rate."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
    reg = {}
    ids = ("sand", "rock")

    def store(caps, levels):
        return [{"id": i, "capacity": k, "level": lv} for i, k, lv in zip(ids, caps, levels)]

    A = MultiSite(env=e, name="A", geometry=P0, nr_resources=2, initials=store(
        (9, 9), (c.num("sandA", 1, amax), c.int("rockA", 1, amax))))
    B = MultiSite(env=e, name="B", geometry=P0, nr_resources=2, initials=store(
        (c.num("capS", 1, amax), c.int("capR", 1, amax)), (0, 0)))
    shifts, tops = [], []
    for i, cr in zip(ids, cranes(e, ["c0", "c1"])):
        s = Shift(name=f"s{i}", env=e, registry=reg, processor=cr, origin=A, destination=B,
                  phase=c.choice(f"phase_{i}", ["loading", "unloading"]),
                  amount=c.num(f"a_{i}", 1, amax), id_=i)
        w = Basic(name=f"w{i}", env=e, registry=reg, duration=c.num(f"t_{i}", 0, tmax))
        shifts.append((s, A, B, i))
        tops.append(Seq(name=f"q{i}", env=e, registry=reg, sub_processes=[w, s]))
    return e, [A, B], shifts, tops, ids


def loop(c, amax=3, big=6, amounts=(None, 1, 2), stop="or"):
    """A loop that moves everything with partial last trips."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=3000)
    reg = {}
    A = site(e, "A", capacity=big, level=c.num("levelA", 1, big))
    B = site(e, "B", capacity=c.num("capB", 1, big))
    v = vessel(e, "v", capacity=c.num("cap", 1, amax))
    kw = dict(env=e, registry=reg)
    lo = Shift(name="l", processor=v, origin=A, destination=v, duration=2,
               amount=c.choice("amount", list(amounts)), **kw)
    un = Shift(name="u", processor=v, origin=v, destination=B, duration=1, **kw)
    w = While(name="w", sub_processes=[
        Move(name="m", mover=v, destination=A, duration=1, **kw), lo,
        Move(name="n", mover=v, destination=B, duration=1, **kw), un],
        condition_event=[{"or": [{"type": "container", "concept": A, "state": "empty"},
                                 {"type": "container", "concept": B, "state": "full"}]}], **kw)
    return e, [A, B, v], [(lo, A, v, "default"), (un, v, B, "default")], [w], ("default",)


def retry(c, amax=3, dmax=2, tmax=2, keep=True):
    """A shift that has to be tried again, because what it counted on is taken while it
    waits for its origin; the vessel is kept from the move before, and wanted by a crane."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
    reg = {}
    kw = dict(env=e, registry=reg)
    A = site(e, "A", capacity=3 * amax, level=c.num("levelA", 1, 2 * amax))
    C = site(e, "C", capacity=3 * amax, level=2 * amax)
    B = site(e, "B", capacity=3 * amax)
    v = vessel(e, "v", capacity=c.num("cap", 1, amax))
    D = site(e, "D", capacity=3 * amax, level=2 * amax)
    cr = cranes(e, ["c0", "c1", "c2"])
    req = {} if keep else None
    g = dict(requested_resources=req, keep_resources=[v]) if keep else {}
    m = Move(name="m", mover=v, destination=A, duration=1, **g, **kw)
    lo = Shift(name="l", processor=v, origin=A, destination=v, duration=1, amount=c.num("a0", 1, amax),
               **(dict(requested_resources=req) if keep else {}), **kw)
    o = Shift(name="o", processor=cr[0], origin=A, destination=B, duration=c.num("d", 1, dmax + 1),
              amount=c.num("a1", 1, amax), **kw)
    x = Shift(name="x", processor=cr[1], origin=C, destination=v, duration=1, amount=1, **kw)
    p = Shift(name="p", processor=cr[2], origin=D, destination=A, duration=c.num("dp", 1, dmax), amount=1, **kw)
    w = [Basic(name=f"w{i}", duration=c.num(f"t{i}", 0, tmax), **kw) for i in range(2)]
    tops = [Seq(name="q0", sub_processes=[w[0], o], **kw), Seq(name="g", sub_processes=[m, lo], **kw),
            Seq(name="q1", sub_processes=[w[1], x], **kw), Seq(name="q2", sub_processes=[p], **kw)]
    return e, [A, B, C, v, D], [(p, D, A, "default"), (lo, A, v, "default"), (o, A, B, "default"), (x, C, v, "default")], tops, ("default",)


def crane(c, amax=3, dmax=2, tmax=2):
    """A shift that has to be tried again, because what it counted on is taken while it
    waits for its crane."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=900)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=3 * amax, level=c.num("levelA", 1, 2 * amax))
    B = site(e, "B", capacity=c.num("capB", 1, 2 * amax))
    C = site(e, "C", capacity=3 * amax, level=amax)
    D, E = site(e, "D", capacity=3 * amax), site(e, "E", capacity=3 * amax)
    cr = cranes(e, ["c0", "c1"])
    busy = Shift(name="b", processor=cr[0], origin=C, destination=D, amount=1,
                 duration=c.num("d0", 1, dmax + 1), **kw)
    want = Shift(name="w", processor=cr[0], origin=A, destination=B, duration=1,
                 amount=c.num("a0", 1, amax) if c.flag("amount") else None, **kw)
    other = Shift(name="o", processor=cr[1], origin=A, destination=E, duration=c.num("d1", 0, dmax),
                  amount=c.num("a1", 1, amax), **kw)
    w = [Basic(name=f"w{i}", duration=c.num(f"t{i}", 0, tmax), **kw) for i in range(2)]
    tops = [Seq(name="q", sub_processes=[busy], **kw), Seq(name="q0", sub_processes=[w[0], want], **kw), Seq(name="q1", sub_processes=[w[1], other], **kw)]
    return e, [A, B, C, D, E], [(busy, C, D, "default"), (want, A, B, "default"), (other, A, E, "default")], tops, ("default",)


def quay(c, amax=2, tmax=1):
    """Two shifts at a time from and to the same sites, which have two places each."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=9, level=c.num("levelA", 1, 2 * amax), nr=2)
    B = site(e, "B", capacity=c.num("capB", 1, 2 * amax), nr=2)
    cr = cranes(e, ["c0", "c1"])
    shifts, tops = [], []
    for i in range(2):
        s = Shift(name=f"s{i}", processor=cr[i], origin=A, destination=B, duration=c.num(f"d{i}", 1, 2),
                  amount=c.num(f"a{i}", 1, amax), **kw)
        w = Basic(name=f"w{i}", duration=c.num(f"t{i}", 0, tmax) if i else 0, **kw)
        shifts.append((s, A, B, "default"))
        tops.append(Seq(name=f"q{i}", sub_processes=[w, s], **kw))
    return e, [A, B], shifts, tops, ("default",)


def groups(c, amax=2, dmax=2, tmax=2):
    """Groups of activities that share their claims, and one that keeps none."""
    e = Env(initial_time=getattr(c, "t0", 0), max_steps=1500)
    kw = dict(env=e, registry={})
    A = site(e, "A", capacity=9, level=8)
    B = site(e, "B", capacity=9)
    C = site(e, "C", capacity=9, level=2)
    tops, shifts, vs = [], [], []
    for i in range(2):
        v = vessel(e, f"v{i}", capacity=amax, level=1)
        vs.append(v)
        keep = {"nothing": [], "vessel": [v], "site": [A], "vessel and site": [v, A], "site and vessel": [A, v],
                }[c.choice(f"keep{i}", ["vessel", "vessel and site", "site and vessel", "site", "nothing"]
                           if i == 0 else ["vessel"])]
        g = dict(requested_resources={}, **kw)
        subs = [Move(name=f"m{i}", mover=v, destination=A, duration=1 - i, keep_resources=keep, **g),
                Shift(name=f"l{i}", processor=v, origin=A, destination=v, duration=c.num(f"l{i}", 1, dmax) if i == 0 else 1,
                      amount=1, keep_resources=keep, **g),
                Shift(name=f"u{i}", processor=v, origin=v, destination=B, duration=c.num(f"u{i}", 1, dmax) if i == 0 else 2,
                      amount=1, keep_resources=keep, **g)]
        if i == 0:
            subs.append(Shift(name="z", processor=v, origin=A, destination=v, duration=1, amount=1, **g))
            shifts.append((subs[3], A, v, "default"))
        else:
            subs[-1].keep_resources = []
        subs[-1]._keep = keep
        shifts += [(subs[1], A, v, "default"), (subs[2], v, B, "default")]
        tops.append(Seq(name=f"g{i}", sub_processes=subs, **kw))
    cr = cranes(e, ["c0", "c1"])
    into = c.choice("into", [A, B])
    s = Shift(name="s", processor=cr[0], origin=C, destination=into, duration=c.int("s", 1, dmax + 1), amount=1, **kw)
    shifts.append((s, C, into, "default"))
    w = Basic(name="w", duration=c.int("t", 0, tmax), **kw)
    tops.append(Seq(name="q", sub_processes=[w, s], **kw))
    r = Move(name="o", mover=vs[0], destination=B, duration=1,
             start_event=[{"type": "time", "start_time": getattr(c, "t0", 0) + c.int("o", 0, 3)}], **kw)
    tops.append(r)
    return e, [A, B, C] + vs, shifts, tops, ("default",)
