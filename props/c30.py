"""C30 Recorded activities are a faithful reading of all logs."""

from openclsim.critical_path.dependencies_from_recorded_activities import (
    DependenciesFromRecordedActivities)

from . import trees
from .base import *  # noqa: F401,F403


def read(o, label_wise=True):
    """[(activity id, start, end, state)] of one log, label by label."""
    out, begun = [], {}
    for t, a, s, ob, lab in entries(o):
        wait = "WAIT" in s
        key = (a, wait, (lab or {}).get("ref") if label_wise else None)
        if "START" in s:
            begun.setdefault(key, []).append(t)
        else:
            out.append((a, begun[key].pop(0), t, "WAITING" if wait else "ACTIVE"))
    return out


def order(rows):
    r = []
    for x in rows:  # by start, then end
        k = len(r)
        while k > 0 and bool(or_(x[1] < r[k - 1][1], and_(x[1] == r[k - 1][1], x[2] < r[k - 1][2]))):
            k -= 1
        r.insert(k, x)
    return r


def table(c, e, objs, acts, structural=()):
    """Compares the table with the logs; returns it by activity and object."""
    every = model.get_subprocesses(list(acts))
    names = {a.id: a.name for a in every}
    d = DependenciesFromRecordedActivities(e, objs, acts)
    df = d.get_recorded_activity_df()
    rows = df.to_dict("records")
    got, want = {}, {}
    for r in rows:
        s, t = senv.seconds(r["start_time"]), senv.seconds(r["end_time"])
        c.check(r["duration"].total_seconds() == t - s, "a recorded duration is not the time from start to end")
        got.setdefault((r["SimulationObject"], r["ActivityID"], r["state"]), []).append((r, s, t))
        c.check(r["Activity"] == names.get(r["ActivityID"], r["ActivityID"]), "a run is recorded under another name")
    for o in objs:
        for a, s, t, st in read(o):
            want.setdefault((o.name, a, st), []).append((a, s, t))
    for x in every:
        if x.id in structural:
            continue
        for a, s, t, st in read(x):
            want.setdefault(("Activity", a, st), []).append((a, s, t))
    for k in got:
        c.check(k in want or (k[0] == "Activity" and k[1] in structural), "something is recorded that was not logged")
    for k, w in want.items():
        g = got.get(k, [])
        c.check(len(g) == len(w), "there is not one row for every logged run or wait")
        if len(g) != len(w):
            continue
        for x, y in zip(order(g), order(w)):
            c.check(x[1] == y[1], "a run is recorded with another start")
            c.check(x[2] == y[2], "a run is recorded with another end")
    # identities
    flat = [x for v in got.values() for x in v if x[0]["ActivityID"] not in structural]
    for i, (r, s, t) in enumerate(flat):
        for q, u, v in flat[:i]:
            if r["cp_activity_id"] == q["cp_activity_id"]:
                c.check(r["ActivityID"] == q["ActivityID"], "different activities share an identity")
                c.check(and_(s == u, t == v), "different runs share an identity")
            elif r["ActivityID"] == q["ActivityID"]:
                c.check(not_(and_(s == u, t == v)), "one run has two identities")
    ts = [senv.seconds(r["start_time"]) for r in rows]
    for a, b in zip(ts, ts[1:]):
        c.check(a <= b, "the table is not in order of time")
    c.check(d.get_recorded_activity_df() is df, "asked again, the table is another one")
    return got


def fleet(c, dmax=2, trips=2, nv=1):
    """Loops: every activity runs several times, on a vessel and a site."""
    t0 = c.int("t0", 0, 2)
    e = Env(initial_time=t0, max_steps=2500)
    kw = dict(env=e, registry={})
    A, B = site(e, "A", capacity=99, level=nv * trips), site(e, "B", capacity=99)
    vs, acts = [], []
    for k in range(nv):
        v = vessel(e, f"v{k}", capacity=1)
        vs.append(v)
        d = [c.num(f"d{k}{j}", 0, dmax) if (k, j) in ((0, 0), (0, 1), (0, 3), (1, 0)) else 1 for j in range(4)]
        subs = [Move(name=f"m{k}", mover=v, destination=A, duration=d[0], **kw),
                Shift(name=f"l{k}", processor=v, origin=A, destination=v, duration=d[1], **kw),
                Move(name=f"n{k}", mover=v, destination=B, duration=d[2], **kw),
                Shift(name=f"u{k}", processor=v, origin=v, destination=B, duration=d[3], **kw)]
        acts.append(Repeat(name=f"r{k}", sub_processes=subs, repetitions=trips, **kw))
    model.register_processes(acts)
    run(c, e)
    table(c, e, [A, B] + vs, acts, structural={a.id for a in acts})
    c.cover("run")


def waits(c, dmax=2, tmax=2, reps=2):
    """Runs and waits of leaves, back to back and of no length, in a loop."""
    t0 = c.int("t0", 0, 1)
    e = Env(initial_time=t0, max_steps=2500)
    kw = dict(env=e, registry={})
    o, p = site(e, "o", capacity=9), site(e, "p", capacity=9)
    pct = c.choice("percent", [0, 50, 100])
    a = trees.DBasic(name="a", duration=c.num("da", 0, dmax), delay_percentage=pct, additional_logs=[o, p], **kw)
    b = Basic(name="b", duration=c.num("db", 0, dmax), additional_logs=[p],
              start_event=[{"type": "time", "start_time": t0 + c.int("at", 0, tmax)}], **kw)
    k = Basic(name="k", duration=c.int("dk", 0, 1), additional_logs=[o],
              start_event=[{"type": "activity", "name": "b", "state": "done"}], **kw)
    r = Repeat(name="r", repetitions=reps, sub_processes=[a], **kw)
    s = Seq(name="s", sub_processes=[b], **kw)
    model.register_processes([r, s, k])
    run(c, e)
    table(c, e, [o, p], [r, s, k], structural={r.id, s.id})
    c.cover(pct)


def names(c, dmax=2):
    """Activities that are not given, and the only part of a structure."""
    e = Env(max_steps=2500)
    kw = dict(env=e, registry={})
    o, p = site(e, "o", capacity=9), site(e, "p", capacity=9)
    x = Basic(name="x", duration=c.num("dx", 0, dmax), additional_logs=[o], **kw)
    y = Basic(name="y", duration=c.num("dy", 0, dmax), additional_logs=[o, p], **kw)
    z = Basic(name="z", duration=c.int("dz", 0, dmax), **kw)
    s = Seq(name="s", sub_processes=[x], **kw)
    model.register_processes([s, y, z])
    # under the name of another one
    n = Basic(name="y", duration=c.int("dn", 0, dmax), additional_logs=[p], env=e, registry={})
    model.register_processes([n])
    run(c, e)
    given = c.choice("given", [[s, y], [s, y, z], [y, z], [s, n, y], [n, z]])
    table(c, e, c.choice("objects", [[o, p], [p, o], [o]]), given)


def structures(c, dmax=2, small=True):
    """What structural activities log about their parts."""
    e = Env(max_steps=2500)
    table_ = trees.shapes(small)
    T = trees.Tree(c, table_[c.choice("shape", list(table_))], e, {}, dmax=dmax)
    o = site(e, "o", capacity=9)
    for n in T.order:
        if T.spec[n][0] == "leaf":
            T.acts[n].additional_logs = [o]
    model.register_processes([T.top])
    run(c, e)
    st = {T.acts[n].id for n in T.order if T.spec[n][0] != "leaf"}
    got = table(c, e, [o], [T.top], structural=st)
    for n in T.order:
        a = T.acts[n]
        if a.id not in st:
            continue
        g = order(got.get(("Activity", a.id, "ACTIVE"), []))
        w = order(read(a))
        c.check(len(g) == len(w), "there is not one row for every logged run or wait")
        if len(g) != len(w):
            continue
        right = and_(*[and_(x[1] == y[1], x[2] == y[2]) for x, y in zip(g, w)])
        # the known finding: the i-th start with the i-th end, whatever they belong to
        starts, ends = [y[1] for y in w], sorted(y[2] for y in w)
        known = and_(*[and_(x[1] == s, x[2] == t) for x, s, t in zip(g, starts, ends)])
        c.check(or_(right, known), "a structural activity is recorded with runs that were not logged")
        c.check(right, "starts and ends of a structural activity and its parts are paired in order of time")


SCENARIOS = [
    Scenario("fleet", fleet, quick=dict(dmax=2), thorough=dict(dmax=3, nv=2, trips=2), covers=["run"],
             what="loops of vessels"),
    Scenario("two", fleet, quick=dict(dmax=1, trips=1, nv=2), thorough=dict(dmax=3, trips=1, nv=3), covers=["run"],
             what="vessels that compete"),
    Scenario("waits", waits, quick=dict(dmax=2), thorough=dict(dmax=3, tmax=5, reps=3), covers=[0, 50, 100],
             what="runs and waits, also of no length"),
    Scenario("names", names, quick=dict(), thorough=dict(dmax=5), what="other objects and activities"),
    Scenario("structures", structures, quick=dict(dmax=1), thorough=dict(dmax=2, small=False),
             what="structural activities"),
]
