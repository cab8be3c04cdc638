"""C28 Dependencies inferred from the records follow their rule."""

import pandas as pd

from openclsim.critical_path.dependencies_from_recorded_activities import (
    DependenciesFromRecordedActivities)

from .base import *  # noqa: F401,F403


def frame(rows, same=()):
    """Runs in `same` are runs of one activity."""
    return pd.DataFrame([
        dict(Activity=f"act {'x' if i in same else i}", ActivityID=f"id {'x' if i in same else i}", SimulationObject=o, start_time=s, end_time=e,
             duration=e - s, state=st, cp_activity_id=f"cp {i}") for i, o, s, e, st in rows])


def rule(rows):
    """(cause, effect) -> condition, for all pairs of different recorded activities."""
    real = [r for r in rows if r[1] != "Activity"]
    want = {}
    for r in real:
        waiting = or_(False, *[q[3] == r[2] for q in real if q[1] == r[1] and q[4] == "WAITING"])
        for q in real:
            if q[0] == r[0]:
                continue
            x = q[3] == r[2]
            if q[1] != r[1]:
                x = and_(x, waiting)
            want[(q[0], r[0])] = or_(want.get((q[0], r[0]), False), x)
    return want


def compare(c, got, want):
    c.check(len(set(got)) == len(got), "a dependency is listed twice")
    for p in got:
        c.check(p[0] != p[1], "an activity depends on itself")
        c.check(p in want, "a dependency on something that is not recorded")
    for p, x in want.items():
        if p in got:
            c.check(x, "a dependency is listed that does not follow from the records")
        else:
            c.check(not_(x), "a dependency that follows from the records is missing")


def timetable(c, objs, span=4, dmax=3, dates=False, order=False):
    """Any times for runs and waits on the given objects."""
    rows = []
    for i, os_ in enumerate(objs):
        st = c.choice(f"state{i}", ["ACTIVE", "WAITING"])
        s = c.int(f"start{i}", 0, span)
        e = s + c.int(f"dur{i}", 0 if st == "ACTIVE" else 1, dmax)
        for o in os_:
            rows.append((i, o, s, e, st))
    if order and c.flag("reversed"):
        rows = rows[::-1]
    D = senv.FakeDatetime.utcfromtimestamp if c.symbolic else pd.Timestamp.utcfromtimestamp
    same = c.choice("runs of one activity", [(), (0, 1), (0, 2)])
    fr = frame([(i, o, D(a), D(b), st) for i, o, a, b, st in rows] if dates else rows, same)
    d = DependenciesFromRecordedActivities(None, [], [])
    d.recorded_activities_df = fr.copy()
    got = d.get_dependency_list()
    got = [(int(a[3:]), int(b[3:])) for a, b in got]
    compare(c, got, rule(rows))
    c.check(d.get_dependency_list() is d.dependency_list, "the list changes")
    c.check(len(d.recorded_activities_df) == len(fr), "the records are changed")
    c.cover(min(len(got), 3))


def simulated(c, dmax=2):
    """The records of a simulation: two vessels share a site."""
    e = Env(max_steps=1500)
    kw = dict(env=e, registry={})
    A, B = site(e, "A", capacity=99, level=9), site(e, "B", capacity=99)
    v, w = vessel(e, "v", capacity=1), vessel(e, "w", capacity=1)
    acts = []
    for k, x in enumerate((v, w)):
        acts.append(Seq(name=f"s{k}", sub_processes=[
            Move(name=f"m{k}", mover=x, destination=A, duration=c.int(f"m{k}", 0, dmax), **kw),
            Shift(name=f"l{k}", processor=x, origin=A, destination=x, duration=c.int(f"l{k}", 0, dmax), **kw),
            Shift(name=f"u{k}", processor=x, origin=x, destination=B, duration=c.int(f"u{k}", 1, dmax), **kw)], **kw))
    model.register_processes(acts)
    run(c, e)
    d = DependenciesFromRecordedActivities(e, [A, B, v, w], acts)
    deps = d.get_dependency_list()
    ids = {}
    rows = []
    for r in d.get_recorded_activity_df().to_dict("records"):
        i = ids.setdefault(r["cp_activity_id"], len(ids))
        rows.append((i, r["SimulationObject"], senv.seconds(r["start_time"]), senv.seconds(r["end_time"]), r["state"]))
    compare(c, [(ids[a], ids[b]) for a, b in deps], rule(rows))
    c.cover("run")


O, P, Q, X = "o", "p", "q", "Activity"
SCENARIOS = [
    Scenario("shared", timetable, quick=dict(objs=[[O, P], [O], [P], [O, X]], span=2, dmax=2),
             thorough=dict(objs=[[O, P], [O], [P], [O, X]], span=5, dmax=3),
             covers=[0, 1, 2, 3], what="runs and waits on common objects"),
    Scenario("apart", timetable, quick=dict(objs=[[O], [P], [X], [Q]], span=2, dmax=2),
             thorough=dict(objs=[[O], [P], [X], [Q], [O]], span=3, dmax=2),
             covers=[0], what="runs and waits on different objects"),
    Scenario("waits", timetable, quick=dict(objs=[[O], [P], [O]], span=3, dmax=3, dates=True, order=True),
             thorough=dict(objs=[[O], [P, Q], [O], [P]], span=3, dmax=3, dates=True, order=True),
             covers=[0, 1, 2], what="times as dates"),
    Scenario("simulated", simulated, quick=dict(dmax=2), thorough=dict(dmax=4), covers=["run"],
             what="records of a simulation"),
]
