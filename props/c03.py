"""C03 A shift moves the right amount in the right time."""

from .base import *  # noqa: F401,F403


def pair(c, e, big, ids=None):
    """Origin and destination with symbolic levels and capacities."""
    la, fa = c.int("levelA", 0, big), c.int("spareA", 0, 1)
    lb, fb = c.int("levelB", 0, 2), c.int("freeB", 0, big)
    c.assume(la + fa >= 1)
    c.assume(lb + fb >= 1)
    if ids is None:
        return (site(e, "A", capacity=la + fa, level=la), site(e, "B", capacity=lb + fb, level=lb),
                la, fb)
    me, other = ids
    ox, oc = c.int("otherA", 0, 2), c.int("otherB", 0, 2)

    def store(cap, lev, ocap, olev):
        r = [{"id": me, "capacity": cap, "level": lev},
             {"id": other, "capacity": ocap, "level": olev}]
        return r if ids[0] < ids[1] else r[::-1]

    return (MultiSite(env=e, name="A", geometry=P0, initials=store(la + fa, la, 5, ox)),
            MultiSite(env=e, name="B", geometry=P0, initials=store(lb + fb, lb, 5, oc)), la, fb)


def single(c, big=6, multi=False):
    """One shift, alone.  Amount, levels, capacities, rates and manoeuvring free."""
    t0 = c.int("t0", 0, 2)
    e = Env(initial_time=t0, max_steps=300)
    reg = {}
    id_ = "default"
    ids = None
    if multi:
        id_, other = c.choice("materials", [("sand", "rock"), ("rock", "sand"),
                                            ("default", "rock")])
        ids = (id_, other)
    A, B, la, fb = pair(c, e, big, ids)
    lb = level(B, id_)
    how = c.choice("how", ["duration", "loading", "unloading"])
    form = c.choice("form", ["number", "function"]) if how != "duration" else None
    calls = []
    kw = {}
    man = c.int("manoeuvring", 0, 2)
    if how == "duration":
        kw["duration"] = c.num("duration", 0, 4)
    elif form == "number":
        rate = c.choice("rate", [1, 2, 0.5])
        kw[how + "_rate"] = rate
        other_rate = {"loading": "unloading_rate", "unloading": "loading_rate"}[how]
    else:
        fd = c.int("function_time", 0, 4)

        def fcn(before, after):
            calls.append((before, after))
            return fd

        rate = fcn
    ck = dict(loading_rate=7, unloading_rate=7, load_manoeuvring=5, unload_manoeuvring=5)
    if how == "loading":
        ck.update(loading_rate=rate, load_manoeuvring=man)
    elif how == "unloading":
        ck.update(unloading_rate=rate, unload_manoeuvring=man)
    # the crane is a third object, or the origin or destination itself is the processor
    cr = Crane(env=e, name="crane", geometry=P0, **ck)
    amount = c.int("amount", 0, big) if c.flag("amount given") else None
    s = Shift(name="s", env=e, registry=reg, processor=cr, origin=A, destination=B,
              phase=None if how == "duration" else how, amount=amount, id_=id_,
              duration=kw.get("duration"))
    model.register_processes([s])
    refused = False
    try:
        run(c, e)
    except ValueError:
        refused = True
    if refused:
        c.cover("refused")
        c.check(or_(la <= 0, fb <= 0), "refused although there is something to shift and space for it")
        c.check(and_(level(A, id_) == la, level(B, id_) == lb), "a refused shift changed a level")
        c.check(len(own(s)) == 0, "a refused shift is logged as run")
        return
    c.check(and_(la > 0, fb > 0), "a shift from an empty origin or to a full destination is not refused")
    want = mn(la, fb) if amount is None else mn(amount, la, fb)
    c.check(la - level(A, id_) == want, "amount taken is not min(requested, content, free space)")
    c.check(level(B, id_) - lb == want, "amount delivered is not min(requested, content, free space)")
    iv, ns, ne = intervals(s)
    c.check(ns == 1 and ne == 1, "not run exactly once")
    took = iv[0][1] - iv[0][0]
    c.check(iv[0][0] == t0, "does not start at once")
    if how == "duration":
        c.check(took == kw["duration"], "does not take the given duration")
        c.cover("by duration")
    elif form == "number":
        c.check(close(took * rate, want + man * 60 * rate), "does not take amount / rate + manoeuvring")
        c.cover("by rate")
    else:
        c.check(took == fd + man * 60, "does not take what the rate function gives + manoeuvring")
        c.check(len(calls) == 1, "rate function not used once")
        before, after = calls[0]
        if how == "loading":
            c.check(and_(before == lb, after == lb + want),
                    "the loading function does not get the content of the destination before and after")
        else:
            c.check(and_(before == la, after == la - want),
                    "the unloading function does not get the content of the origin before and after")
        c.cover("by function")


def contended(c, big=4, tmax=2):
    """A shift that has to wait for its origin or destination, or meets another one."""
    e = Env(max_steps=600)
    reg = {}
    la, lc = c.int("levelA", 0, big), c.int("levelC", 0, 2)
    x0 = big
    capa, capc = 3 * big, c.int("capC", 1, big)
    c.assume(lc < capc)
    A, X = site(e, "A", capacity=capa, level=la), site(e, "X", capacity=3 * big, level=x0)
    C = site(e, "C", capacity=capc, level=lc)
    cr = cranes(e, ["c0", "c1"])
    case = c.choice("case", ["into origin", "out of origin", "into destination",
                             "out of destination"])
    o1, d1 = {"into origin": (X, A), "out of origin": (A, X), "into destination": (X, C),
              "out of destination": (C, X)}[case]
    a1, a2 = c.int("a1", 1, big), c.int("a2", 1, big)
    d = c.int("d1", 1, 3)
    t2 = c.int("t2", 0, tmax) + 0.5
    s1 = Shift(name="s1", env=e, registry=reg, processor=cr[0], origin=o1, destination=d1,
               duration=d, amount=a1)
    s2 = Shift(name="s2", env=e, registry=reg, processor=cr[1], origin=A, destination=C,
               duration=1, amount=a2)
    w = Basic(name="w", env=e, registry=reg, duration=t2)
    q = Seq(name="q", env=e, registry=reg, sub_processes=[w, s2])
    # make s1 always possible
    c.assume(and_(level(o1) > 0, level(d1) < d1.container.get_capacity()))
    m1 = mn(a1, level(o1), d1.container.get_capacity() - level(d1))
    lx = {"into origin": (la, lc), "out of origin": (la - m1, lc), "into destination": (la, lc),
          "out of destination": (la, lc - m1)}[case]
    model.register_processes([s1, q])
    refused = False
    try:
        run(c, e)
    except ValueError:
        refused = True
    free = {"into destination": capc - lc - m1, "out of destination": capc - lc + m1}.get(
        case, capc - lc)
    start = t2
    if case.endswith("destination"):
        start = mx(t2, d)  # the destination is claimed first, the amount fixed after that
        got = mn(a2, la, free)
    else:
        start = mx(t2, d)
        if case == "into origin":
            # fixed at the attempt; what arrives while it waits for the origin does not add to it
            got = mn(a2, la, free) if t2 < d else mn(a2, la + m1, free)
        else:
            got = mn(a2, la - m1, free)
    if refused:
        c.cover("refused")
        c.check(got <= 0, "refused although there is something to shift and space for it")
        c.check(intervals(s2)[1] == 0, "a refused shift is logged as run")
        return
    c.check(got > 0, "a shift from an empty origin or to a full destination is not refused")
    iv, ns, ne = intervals(s2)
    c.check(ns == 1 and ne == 1, "not run exactly once")
    c.check(iv[0][0] == start, "does not start when origin and destination are free")
    c.check(iv[0][1] - iv[0][0] == 1, "does not take the given duration")
    end_c = level(C)
    base = lc + (m1 if case == "into destination" else 0) - (m1 if case == "out of destination" else 0)
    c.check(end_c - base == got, "amount delivered is not min(requested, content, free space)")
    c.cover("waited" if t2 < d else "free")


SCENARIOS = [
    Scenario("single", single, quick=dict(big=5), thorough=dict(big=12),
             covers=["refused", "by duration", "by rate", "by function"], what="one shift"),
    Scenario("multi", single, quick=dict(big=3, multi=True), thorough=dict(big=9, multi=True),
             covers=["refused", "by duration", "by rate", "by function"],
             what="one shift of one of two materials"),
    Scenario("contended", contended, quick=dict(), thorough=dict(big=8, tmax=5),
             covers=["refused", "waited", "free"],
             what="a shift that meets another shift from or to the same sites"),
]
