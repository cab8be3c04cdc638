"""C23 The exported activity tree is the real tree."""

import os
import shutil
import tempfile

import pandas as pd

from openclsim import io as oio

from .base import *  # noqa: F401,F403

MODES = ("processor", "mover", "origin", "destination")


class Cycle(ByName, model.SequentialActivity):
    """Structures under other names than the classes of the library."""


class Loop_(ByName, model.WhileActivity):
    pass


def forest(c, n, tops, e, leaf_kinds=False, kinds=("s", "p", "w", "r", "c", "l")):
    """n activities; the parent of each is any earlier one or none."""
    kw = dict(env=e, registry={})
    parent = [None]
    for i in range(1, n):
        p = c.int(f"parent{i}", -1 if tops else 0, i - 1)
        parent.append(None if p < 0 else next(j for j in range(i) if p == j))
    A, B = site(e, "A", capacity=9), site(e, "B", capacity=9)
    v, w = vessel(e, "v", capacity=9), vessel(e, "w", capacity=9)
    acts, rel = [None] * n, {}
    for i in reversed(range(n)):
        kids = [acts[j] for j in range(i + 1, n) if parent[j] == i]
        nm = f"n{i}"
        if kids:
            k = c.choice(f"structure{i}", list(kinds))
            acts[i] = {"s": lambda: Seq(name=nm, sub_processes=kids, **kw),
                       "c": lambda: Cycle(name=nm, sub_processes=kids, **kw),
                       "l": lambda: Loop_(name=nm, sub_processes=kids, condition_event=[
                           {"type": "container", "concept": B, "state": "full"}], **kw),
                       "p": lambda: Par(name=nm, sub_processes=kids, **kw),
                       "w": lambda: While(name=nm, sub_processes=kids, condition_event=[
                           {"type": "container", "concept": B, "state": "full"}], **kw),
                       "r": lambda: Repeat(name=nm, sub_processes=kids, repetitions=2, **kw)}[k]()
            rel[i] = {}
        else:
            k = c.choice(f"leaf{i}", ["basic", "move", "shift", "crane"]) if leaf_kinds else "basic"
            if k == "basic":
                acts[i], rel[i] = Basic(name=nm, duration=1, **kw), {}
            elif k == "move":
                m = [v, w][i % 2]
                acts[i], rel[i] = Move(name=nm, mover=m, destination=B, **kw), {"mover": m, "destination": B}
            else:
                p, o, d = (v, v, B) if k == "shift" else (w, A, v)
                acts[i] = Shift(name=nm, processor=p, origin=o, destination=d, duration=1, **kw)
                rel[i] = {"processor": p, "origin": o, "destination": d}
    return acts, parent, rel, [A, B, v, w]


def depth_of(parent, i):
    d = 0
    while parent[i] is not None:
        i, d = parent[i], d + 1
    return d


def compare(c, rows, acts, parent, base):
    """rows: list of dicts of the exported columns."""
    by = {}
    for r in rows:
        by.setdefault(r["ActivityID"], []).append(r)
    c.check(len(rows) == len(acts), "the export has another number of activities than the plan")
    for i, a in enumerate(acts):
        rs = by.get(a.id, [])
        c.check(len(rs) == 1, "an activity is not exported exactly once")
        if len(rs) != 1:
            continue
        r = rs[0]
        c.check(r["ActivityName"] == a.name, "an activity is exported under another name")
        c.check(r["ActivityClass"] == type(a).__name__, "an activity is exported as another class")
        if "activity" in r:
            c.check(r["activity"] is a, "another activity object is exported")
        c.check(r["ParentLevel"] == base + depth_of(parent, i), "an activity is exported at another depth")
        if parent[i] is None:
            c.check(r["ParentId"] is None or r["ParentId"] != r["ParentId"], "a top activity has a parent")
            c.check(r["ParentName"] == "" or r["ParentName"] != r["ParentName"], "a top activity has a parent name")
            c.cover("top")
        else:
            p = acts[parent[i]]
            c.check(r["ParentId"] == p.id, "an activity is not exported under its direct parent")
            c.check(r["ParentName"] == p.name, "an activity is exported with the name of another parent")
            c.cover(f"depth {depth_of(parent, i)}")


def tree(c, n=5):
    """Any tree, as a single activity, list or dict, from any depth."""
    e = Env()
    form = c.choice("form", ["single", "list", "dict"])
    acts, parent, rel, _ = forest(c, n, form != "single", e)
    tops = [a for a, p in zip(acts, parent) if p is None]
    base = c.int("depth", 0, 5) if c.flag("depth given") else None
    arg = tops[0] if form == "single" else tops if form == "list" else {a.name + "x": a for a in tops}
    before = [(a.id, a.name, list(getattr(a, "sub_processes", []))) for a in acts]
    d = oio.get_tree_as_list(arg) if base is None else oio.get_tree_as_list(arg, base)
    base = base or 0
    c.check(len({len(v) for v in d.values()}) == 1, "the exported columns have different lengths")
    rows = [dict(zip(d, x)) for x in zip(*d.values())]
    compare(c, rows, acts, parent, base)
    c.check(before == [(a.id, a.name, list(getattr(a, "sub_processes", []))) for a in acts],
            "exporting changes the plan")
    c.check((arg if form == "list" else tops) == tops and len(tops) == sum(p is None for p in parent),
            "exporting changes the list of activities")
    c.cover(form)


def relations(c, n=3):
    """Vessels and sites of activities of each kind."""
    e = Env()
    acts, parent, rel, objs = forest(c, n, True, e, leaf_kinds=True)
    tops = [a for a, p in zip(acts, parent) if p is None]
    df = oio.get_activities(tops)
    rows = df.to_dict("records")
    compare(c, rows, acts, parent, 0)
    byid = {a.id: i for i, a in enumerate(acts)}
    for r in rows:
        m = rel[byid[r["ActivityID"]]]
        for mode in MODES:
            o = m.get(mode)
            i, nm = r[mode.capitalize() + "ID"], r[mode.capitalize() + "Name"]
            if o is None:
                c.check(i is None or i != i, "an activity is related to an object it does not use")
                c.check(nm == "", "an activity is related to an object it does not use")
            else:
                c.check(i == o.id and nm == o.name, "an activity is not related to the object it uses")
    df = oio.get_activity_resources(tops)
    got = sorted(tuple(r) for r in df[["ActivityID", "ActivityName", "ActivityClass", "ConceptID",
                                       "ConceptName", "ConceptMode"]].itertuples(index=False))
    want = sorted((acts[i].id, acts[i].name, type(acts[i]).__name__, o.id, o.name, mode)
                  for i, m in rel.items() for mode, o in m.items())
    c.check(got == want, "the exported resources are not those of the activities")
    c.cover("none" if not want else "some")
    for m in rel.values():
        for k in m:
            c.cover(k)


def files(c, n=3):
    """What is written to a file is what is returned; objects are exported as they are."""
    e = Env()
    acts, parent, rel, objs = forest(c, n, True, e, leaf_kinds=True)
    tops = [a for a, p in zip(acts, parent) if p is None]
    tmp = tempfile.mkdtemp(prefix="c23_")
    try:
        f = os.path.join(tmp, "x.csv")
        for fn in (oio.get_activities, oio.get_activity_resources):
            df = fn(tops, ofile=f)
            back = pd.read_csv(f, keep_default_na=False)
            c.check(len(back) == len(df), "the file has another number of rows")
            cols = [x for x in df.columns if x != "activity"]
            c.check(set(cols) == set(back.columns), "the file has other columns")
            for x in cols:
                a = ["" if y is None or y != y else str(y) for y in df[x]]
                c.check(a == [str(y) for y in back[x]], "the file has other values")
        ns = c.choice("namespace", ["", "Site", "Vessel"])
        form = objs if c.flag("list") else {o.name: o for o in objs}
        df = oio.get_concepts(form, ns, ofile=f)
        back = pd.read_csv(f)
        c.check(list(back.columns) == list(df.columns), "the file has other columns")
        for d in (df, back):
            c.check(list(d[ns + "Name"]) == [o.name for o in objs], "objects are exported under other names")
            c.check(list(d[ns + "ID"]) == [o.id for o in objs], "objects are exported with other ids")
            c.check(list(d[ns + "Class"]) == [type(o).__name__ for o in objs],
                    "objects are exported as other classes")
    finally:
        shutil.rmtree(tmp)
    c.cover("files")


SCENARIOS = [
    Scenario("tree", tree, quick=dict(n=4), thorough=dict(n=6),
             covers=["single", "list", "dict", "top", "depth 1", "depth 2", "depth 3"], what="any tree"),
    Scenario("deep", tree, quick=dict(n=5), thorough="skip",
             covers=["depth 4"], what="deeper trees"),
    Scenario("relations", relations, quick=dict(), thorough=dict(n=4),
             covers=["none", "some"] + list(MODES), what="relations to objects"),
    Scenario("files", files, quick=dict(n=2), thorough=dict(n=3), covers=["files"], what="exported files"),
]
