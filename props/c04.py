"""C04 Reservations announce planned shifts and settle to reality."""

from . import fleets
from .base import *  # noqa: F401,F403


def reserved(act, org, dst, id_):
    """What the plan announces: the requested amount, or else as much as could ever fit."""
    if act.amount is not None:
        return act.amount
    return mn(org.container.get_capacity(id_), dst.container.get_capacity(id_))


def settle(c, e, objs, shifts, tops, ids):
    res = {a[0].id: reserved(*a) for a in shifts}
    start = {(o.name, i): level(o, f"{i}_reservations") for o in objs for i in ids}
    for o in objs:
        for i in ids:
            c.check(start[(o.name, i)] == level(o, i), "a reservation exists before any plan")
    model.register_processes(tops)

    def invariant(when):
        # how often each shift has been registered, started and ended so far
        n = {}
        for t in tops:
            subs = list(t.sub_processes)
            passes = sum(1 for _, s in own(subs[-1]) if s == "STOP")
            loop = isinstance(t, (model.RepeatActivity, model.WhileActivity))
            over = any(s == "STOP" for _, s in own(t))
            nreg = (passes + (0 if over else 1)) if loop else 1
            for s in subs:
                n[s.id] = nreg
        for o in objs:
            for i in ids:
                want = level(o, i)
                for act, org, dst, j in shifts:
                    if j != i:
                        continue
                    st = sum(1 for _, s in own(act) if s == "START")
                    en = sum(1 for _, s in own(act) if s == "STOP")
                    if dst is o:
                        want = want + res[act.id] * (n[act.id] - en)
                    if org is o:
                        want = want - res[act.id] * (n[act.id] - st)
                c.check(level(o, f"{i}_reservations") == want, when)

    invariant("a registered shift is not (or wrongly) reserved")

    def look():
        if not e._queue or e.peek() > e.now:
            invariant("the reservation is not the level plus what is announced by pending shifts")

    e.watch.append(look)
    try:
        run(c, e)
    except ValueError:
        c.cover("refused")
        return
    if not all(is_finished(t) for t in tops):  # opposite shifts that block each other, see C08
        c.end("blocked")
    for o in objs:
        for i in ids:
            c.check(level(o, f"{i}_reservations") == level(o, i),
                    "the reservation is not the level when nothing is pending")
    c.cover("settled")


def nothing(c, amax=3):
    """Shifts of any amount, also of nothing at all, one after the other or together."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    A = site(e, "A", capacity=c.num("capA", amax, 3 * amax), level=c.num("levelA", 1, amax))
    B = site(e, "B", capacity=c.num("capB", 1, 3 * amax))
    cr = cranes(e, ["c0", "c1"])
    shifts = []
    for i in range(2):
        a = c.num(f"a{i}", 0, amax)
        kind = c.choice(f"kind{i}", ["by rate", "given"])
        ex = {"phase": "loading"} if kind == "by rate" else {"duration": c.num(f"d{i}", 0, 2)}
        shifts.append(Shift(name=f"s{i}", processor=cr[i], origin=A, destination=B, amount=a, **ex, **kw))
        if a == 0:
            c.cover("nothing")
    n = c.flag("after each other")
    tops = [Seq(name="q", sub_processes=shifts, **kw)] if n else \
        [Seq(name=f"q{i}", sub_processes=[s], **kw) for i, s in enumerate(shifts)]
    return e, [A, B], [(s, A, B, "default") for s in shifts], tops, ("default",)


def of(builder):
    return lambda c, **b: settle(c, *builder(c, **b))


SCENARIOS = [
    Scenario("nothing", of(nothing), quick=dict(), thorough=dict(amax=6), covers=["nothing", "settled"],
             what="shifts of any amount, also of nothing"),
    Scenario("fleet", of(fleets.fleet), quick=dict(sym=(0, 2)),
             thorough=dict(trips=2, sym=(0, 1, 2)), covers=["settled", "refused"],
             what="two vessels sail, load, sail, unload between two shared sites"),
    Scenario("trips", of(fleets.fleet), quick=dict(nv=1, trips=2), thorough=dict(nv=1, trips=4),
             covers=["settled", "refused"], what="the same by one vessel several times"),
    Scenario("cross", of(fleets.cross), quick=dict(n=2), thorough=dict(n=3),
             covers=["settled"], what="shifts in both directions"),
    Scenario("multi", of(fleets.multi), quick=dict(tmax=1), thorough=dict(amax=4, tmax=2),
             covers=["settled"], what="two materials at once"),
    Scenario("loop", of(fleets.loop), quick=dict(), thorough=dict(amax=5, big=10),
             covers=["settled"], what="loop until empty or full"),
    Scenario("quay", of(fleets.quay), quick=dict(), thorough=dict(amax=4, tmax=3), covers=["settled"],
             what="sites with two places"),
    Scenario("crane", of(fleets.crane), quick=dict(amax=2, dmax=1, tmax=1), thorough=dict(), covers=["settled"],
             what="a shift that has to be tried again because it waited for its crane"),
    Scenario("retry", of(fleets.retry), quick=dict(amax=2), thorough=dict(), covers=["settled"],
             what="a shift that has to be tried again"),
]
