"""C24 Exported time ranges match the log."""

import contextlib
import io
import os
import shutil
import tempfile

import pandas as pd

from openclsim import io as oio

from .base import *  # noqa: F401,F403
from .trees import Tree, shapes

BIG = 10 ** 9


class Acts:
    """Stands for an activity in an id map."""

    def __init__(self, id_, name):
        self.id, self.name = id_, name


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def secs(x):
    s = senv.seconds(x) if x is not None and x is not pd.NaT and x == x else None
    return BIG if s is None else s


def rows_of(df, key):
    """{activity: [(start, stop, dt, level at start, level at stop, trip)]}"""
    r = {}
    for row in df.to_dict("records"):
        r.setdefault(row[key], []).append((
            secs(row["TimestampStart"]), secs(row["TimestampStop"]), row["TimestampDt"],
            row.get("ContainerLevelStart"), row.get("ContainerLevelStop"), row["trip"]))
    return r


def runs_in(obj):
    """The same from the logbook: k-th start and k-th stop with the same activity and label."""
    open_, r = {}, {}
    for e in obj.logbook:
        if e["ActivityState"] not in ("START", "STOP"):
            continue
        lab = e["ActivityLabel"] or {}
        key = (e["ActivityID"], lab.get("type"), lab.get("ref"))
        t, lv = senv.seconds(e["Timestamp"]), e["ObjectState"].get("container level")
        if e["ActivityState"] == "START":
            n = len([x for k, x in r.items() if k == key for x in x]) + 1
            r.setdefault(key, []).append([t, BIG, None, lv, None, n])
            open_.setdefault(key, []).append(r[key][-1])
        else:
            x = open_[key].pop(0)
            x[1], x[2], x[4] = t, t - x[0], lv
    out = {}
    for key, x in r.items():
        out.setdefault(key[0], []).extend(tuple(y) for y in x)
    return out


def same_rows(c, got, want, levels):
    c.check(set(got) == set(want), "the export has other activities than the log")
    for a in want:
        g, w = got.get(a, []), want[a]
        c.check(len(g) == len(w), "the export has another number of runs than the log")
        if len(g) != len(w):
            continue
        g = sorted(g, key=lambda x: (x[0], x[1], x[5]))
        w = sorted(w, key=lambda x: (x[0], x[1], x[5]))
        for x, y in zip(g, w):
            c.check(x[0] == y[0], "a run is exported with another start")
            c.check(x[1] == y[1], "a run is exported with another stop")
            c.check(x[5] == y[5], "runs are not numbered in order")
            if y[1] is BIG or y[2] is None:
                c.check(x[2] is None or x[2] != x[2], "an unfinished run has a duration")
                c.cover("open")
            else:
                c.check(x[2] == y[2], "the exported duration is not the time from start to stop")
            if levels:
                c.check(x[3] == y[3], "a run is exported with another level at its start")
                if y[4] is not None:
                    c.check(x[4] == y[4], "a run is exported with another level at its stop")


def in_order(c, df):
    ts = [secs(x) for x in df["TimestampStart"]]
    for a, b in zip(ts, ts[1:]):
        c.check(a <= b, "the ranges are not in chronological order")


def logged(c, acts=2, steps=6, gap=100000, amax=3):
    """A log made by hand: any interleaving of runs of several activities, any times and levels."""
    e = Env()
    o = site(e, "o", capacity=99, level=c.int("level", 0, amax))
    ids = [f"id-{i}" for i in range(acts)]
    openn, t, late = {}, c.int("t0", 0, gap), None
    for k in range(steps):
        i = c.choice(f"who{k}", list(range(acts)))
        if i in openn:
            state = core.LogState.STOP
            del openn[i]
        else:
            state = core.LogState.START
            openn[i] = True
        o.log_entry_v1(t, activity_id=ids[i], activity_state=state)
        if k == 1:  # waiting entries are made afterwards and are no runs
            o.log_entry_v1(t, activity_id=ids[i], activity_state=core.LogState.WAIT_START,
                           activity_label={"type": "plugin", "ref": "delay"} if c.flag("plugin") else None)
            late = (t, i)
        if k == 3:
            o.log_entry_v1(t, activity_id=ids[late[1]], activity_state=core.LogState.WAIT_STOP)
        if k % 2 == 0:
            o.container.put(c.int(f"put{k}", 0, amax))
        t = t + c.int(f"gap{k}", 0, gap)
    df = quiet(oio.get_ranges_dataframe, o)
    same_rows(c, rows_of(df, "Activity"), runs_in(o), True)
    in_order(c, df)
    names = [Acts(i, f"name of {i}") for i in ids]
    m = {a.id: a for a in names} if c.flag("as dict") else names
    df = quiet(oio.get_ranges_dataframe, o, id_map=m)
    want = {f"name of {i}": x for i, x in runs_in(o).items()}
    same_rows(c, rows_of(df, "Activity"), want, True)


def tops_of(c, small):
    sh = shapes(small)
    return sh[c.choice("shape", list(sh))]


def plans(c, dmax=2, small=True, cut=False, grid=1):
    """The activity log of a plan of nested activities."""
    e = Env(initial_time=c.int("t0", 0, 3), max_steps=1500)
    T = Tree(c, tops_of(c, small), e, {}, dmax=dmax, grid=grid)
    model.register_processes([T.top])
    if cut:
        e.run(until=e.now + c.int("until", 1, cut))
        c.cover("cut")
    else:
        run(c, e)
    if len(T.acts) > 1 and c.flag("namesakes"):  # activities may have the same name
        for a in T.acts.values():
            a.name = "x"
        c.cover("namesakes")
    arg = {"single": T.top, "list": [T.top], "dict": {"x": T.top}}["list" if cut else c.choice("form", ["single", "list", "dict"])]
    df = quiet(oio.get_activity_log, arg)
    got = rows_of(df, "ActivityID")
    want = {}
    for a in T.acts.values():
        for k, x in runs_in(a).items():
            c.check(k == a.id, "an activity logs for another one")
            want.setdefault(k, []).extend(x)
    same_rows(c, got, want, False)
    byid = {a.id: a for a in T.acts.values()}
    for row in df.to_dict("records"):
        a = byid[row["ActivityID"]]
        c.check(row["ActivityName"] == a.name, "a run is exported under another name")
        c.check(row["ActivityClass"] == type(a).__name__, "a run is exported under another class")
    in_order(c, df)
    for a in T.acts.values():
        if a.logbook:
            df = quiet(oio.get_ranges_dataframe, a)
            same_rows(c, rows_of(df, "Activity"), runs_in(a), False)


def transport(c, amax=3, dmax=2):
    """A fleet at work: what is exported for vessels and sites, with their levels."""
    e = Env(max_steps=1500)
    kw = dict(env=e, registry={})
    A, B = site(e, "A", capacity=99, level=c.int("level", 1, 2 * amax)), site(e, "B", capacity=99)
    v = vessel(e, "v", capacity=c.int("cap", 1, amax))
    d = [c.int(f"d{i}", 0 if i < 2 else 1, dmax) if i < 3 else 1 for i in range(4)]
    subs = [Move(name="m", mover=v, destination=A, duration=d[0], **kw),
            Shift(name="l", processor=v, origin=A, destination=v, duration=d[1], **kw),
            Move(name="n", mover=v, destination=B, duration=d[2], **kw),
            Shift(name="u", processor=v, origin=v, destination=B, duration=d[3], **kw)]
    w = While(name="w", sub_processes=subs, condition_event=[
        {"type": "container", "concept": A, "state": "empty"}], **kw)
    model.register_processes([w])
    run(c, e)
    for o in (v, A, B):
        df = quiet(oio.get_ranges_dataframe, o)
        same_rows(c, rows_of(df, "Activity"), runs_in(o), True)
        in_order(c, df)
        # a run changes the level by what was shifted
        for a in subs:
            for s, t, dt, l0, l1, k in rows_of(df, "Activity").get(a.id, []):
                if isinstance(a, model.MoveActivity):
                    c.check(l0 == l1, "a move is exported with a change of level")
    c.cover(len(intervals(subs[0])[0]))


def files(c):
    """The file holds what is returned."""
    e = Env()
    T = Tree(c, shapes()["rep(par)"], e, {}, durations={"a": 1, "b": 3, "x": 2})
    model.register_processes([T.top])
    if c.flag("cut"):
        e.run(until=4)
    else:
        e.run()
    tmp = tempfile.mkdtemp(prefix="c24_")
    try:
        f = os.path.join(tmp, "x.csv")
        df = quiet(oio.get_activity_log, T.top, ofile=f)
        back = pd.read_csv(f)
        c.check(len(back) == len(df), "the file has another number of rows")
        c.check({"trip", "ActivityID", "ActivityName", "ActivityClass", "TimestampStart",
                 "TimestampStop", "TimestampDt"} == set(back.columns), "the file has other columns")
        k = ["ActivityID", "TimestampStart", "TimestampStop", "trip", "TimestampDt", "ActivityName",
             "ActivityClass"]

        def norm(d):
            r = []
            for row in d[k].to_dict("records"):
                r.append(tuple("" if row[x] != row[x] else stamp(row[x]) if x in k[1:3] else
                               str(float(row[x])) if x in k[3:5] else str(row[x])
                               for x in k))
            return sorted(r)

        def stamp(x):
            return str(x) if "Sym" in str(x) else str(pd.Timestamp(x))

        c.check(norm(back) == norm(df), "the file has other values")
    finally:
        shutil.rmtree(tmp)


SCENARIOS = [
    Scenario("logged", logged, quick=dict(steps=4), thorough=dict(acts=3, steps=7),
             covers=["open"], what="hand-made logs"),
    Scenario("plans", plans, quick=dict(dmax=1), thorough=dict(dmax=2, small=False, grid=4),
             covers=["namesakes"], what="nested activities"),
    Scenario("cut", plans, quick=dict(dmax=1, cut=3), thorough=dict(dmax=3, cut=9),
             covers=["open", "cut"], what="simulations that are cut short"),
    Scenario("transport", transport, quick=dict(), thorough=dict(amax=5, dmax=3),
             covers=[1, 2, 3], what="vessels and sites with levels"),
    Scenario("files", files, quick=dict(), thorough=dict(), what="exported files"),
]
