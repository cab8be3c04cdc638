"""C06 Materials in one container do not affect each other (self-composition:
the same plan with and without the other material's activities)."""

from .base import *  # noqa: F401,F403

# one name begins, ends with and contains the other; one is the name of the only
# material of a container that is not told which
NAMES = (("sand", "sandsand"), ("sand", "default"), ("default", "rock"))


def build(c, v, which):
    """The plan of the given materials, from the values v."""
    e = Env(max_steps=1500)
    reg = {}

    def store(cap, lev):
        return [{"id": i, "capacity": v[f"{cap}_{i}"], "level": v[f"{lev}_{i}"]}
                for i in v["order"]]

    A = MultiSite(env=e, name="A", geometry=P0, nr_resources=2, initials=store("capA", "levA"))
    B = MultiSite(env=e, name="B", geometry=P0, nr_resources=2, initials=store("capB", "levB"))
    parts = {}
    tops = []
    for i in which:
        rate = (lambda before, after: mx(after - before, before - after)) if v["fcn"] else 1
        cr = Crane(env=e, name=f"crane_{i}", geometry=P0, loading_rate=rate, unloading_rate=rate)
        w = Basic(name=f"w_{i}", env=e, registry=reg, duration=v[f"t_{i}"])
        o, d = (B, A) if v[f"back_{i}"] else (A, B)
        s = Shift(name=f"s_{i}", env=e, registry=reg, processor=cr, origin=o, destination=d,
                  phase=v[f"phase_{i}"], amount=v[f"a_{i}"], id_=i)
        cond = Basic(name=f"c_{i}", env=e, registry=reg, duration=0,
                     start_event=[dict({"type": "container", "concept": B, "state": v[f"op_{i}"],
                                        "id_": i}, **({} if v[f"op_{i}"] in ("full", "empty") else
                                                      {"level": v[f"lev_{i}"]}))])
        q = Seq(name=f"q_{i}", env=e, registry=reg, sub_processes=[w, s])
        parts[i] = (w, s, cond, q, cr)
        tops += [q, cond]
    return e, A, B, parts, tops


def outcome(c, v, which):
    e, A, B, parts, tops = build(c, v, which)
    IDS = v["ids"]
    all_ids = list(IDS) + [i + "_reservations" for i in IDS]
    inst = Instants(e, [A, B], ids=all_ids)
    model.register_processes(tops)
    run(c, e)
    return inst, parts, (A, B)


def alone(c, amax=3, tmax=2, back=False, full=False, grid=1, names=False):
    IDS = c.choice("names", NAMES) if names else NAMES[0]
    me = c.choice("material", IDS)
    last = (IDS[1 - IDS.index(me)], me)
    v = {"ids": IDS, "fcn": c.flag("rate function"), "order": last if not full else
         c.choice("order", [last, last[::-1]])}
    for i in IDS:
        free = full or i == me
        v[f"levA_{i}"] = c.num(f"levelA_{i}", 1, 2 * amax, denom=grid)
        v[f"capA_{i}"] = v[f"levA_{i}"] + amax
        v[f"levB_{i}"] = c.num(f"levelB_{i}", 0, 1, denom=grid) if free else 1
        v[f"capB_{i}"] = v[f"levB_{i}"] + (c.num(f"freeB_{i}", 1, amax, denom=grid) if free else 2)
        v[f"t_{i}"] = c.num(f"t_{i}", 0, tmax, denom=grid)
        v[f"a_{i}"] = c.num(f"a_{i}", 1, amax, denom=grid)
        v[f"phase_{i}"] = "loading" if i == IDS[0] else "unloading"
        v[f"back_{i}"] = back and c.flag(f"back_{i}")
        if v[f"back_{i}"]:
            c.assume(v[f"levB_{i}"] > 0)
        v[f"op_{i}"] = c.choice(f"op_{i}", ["ge", "full", "empty"] if i == IDS[0] else
                                ["lt", "full", "empty"]) if i == me or full else "full"
        v[f"lev_{i}"] = c.num(f"threshold_{i}", 0, 3, denom=grid) if free and v[f"op_{i}"] in ("ge", "lt") else 1
    other = IDS[1 - IDS.index(me)]
    joint, jp, jo = outcome(c, v, IDS)
    # alone, there is another amount of the other material, and room for more of it
    v = dict(v, **{f"{k}_{other}": v[f"{k}_{other}"] + n
                   for k, n in (("levA", 3), ("capA", 7), ("levB", 1), ("capB", 5))})
    solo, sp, so = outcome(c, v, (me,))
    parts = ("start of the wait", "shift", "condition", "sequence")
    for a, b, n in zip(jp[me], sp[me], parts):
        x, y = own(a), own(b)
        c.check(len(x) == len(y), f"{n}: other log because of the other material")
        for (t, s), (u, r) in zip(x, y):
            c.check(t == u and s == r if not c.symbolic else and_(t == u, s == r),
                    f"{n}: other times because of the other material")
    for o in jo:
        for suffix in ("", "_reservations"):
            k = (o.name, me + suffix)
            for t, _ in joint.at + solo.at:
                c.check(joint.at_end_of(t)[k] == solo.at_end_of(t)[k],
                        "level or reservation differs because of the other material")
            k = (o.name, other + suffix)
            for t, s in solo.at:
                c.check(s[k] == solo.at[0][1][k],
                        "a shift of one material changes another")
    c.cover("compared")


SCENARIOS = [
    Scenario("alone", alone, quick=dict(tmax=1), thorough=dict(tmax=2, back=True, full=True, grid=4),
             covers=["compared"], what="two materials together and each alone"),
    Scenario("names", alone, quick=dict(amax=2, tmax=0, names=True), thorough=dict(amax=3, tmax=1, names=True),
             covers=["compared"], what="materials of other names"),
]
