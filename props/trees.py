"""Trees of activities with symbolic durations, and the hand-written oracle of
when everything in them should start and end.

A tree is ("leaf", name, opts) | ("seq" | "par", name, [trees], opts) |
("rep", name, n, [trees], opts).  opts may hold
  d      duration of a leaf (default: symbolic)
  at     absolute time before which it may not start
  delay  percentage of its own time that it is delayed afterwards
  late   time that a plugin makes it wait before it starts
  logs   additional logs of a leaf."""

from .base import *  # noqa: F401,F403


def named(cls, *bases):
    return type("P" + cls.__name__, (ByName,) + bases + (cls,), {})


DBasic = named(model.BasicActivity, plugins.HasDelayPlugin)
DSeq = named(model.SequentialActivity, plugins.HasDelayPlugin)
DPar = named(model.ParallelActivity, plugins.HasDelayPlugin)
DRep = named(model.RepeatActivity, plugins.HasDelayPlugin)


class Late(model.AbstractPluginClass):
    """Makes an activity wait before each run."""

    def __init__(self, by):
        self.by = by

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        return activity.delay_processing(env, {"type": "plugin", "ref": "late"}, activity_log, self.by)


def begin(ready, o):
    """When an activity with these options starts if its turn comes at ready."""
    t = mx(ready, o["at"]) if "at" in o else ready
    return t + o["late"] if "late" in o else t


class Tree:
    """Builds the activities of a tree and knows what they should do."""

    def __init__(self, c, spec, e, reg, dmax=3, dlo=0, durations=None, grid=4):
        self.grid = grid
        self.c, self.e, self.reg, self.dmax, self.dlo = c, e, reg, dmax, dlo
        self.acts = {}  # name -> activity
        self.spec = {}  # name -> spec
        self.dur = {} if durations is None else durations
        self.given = durations is not None
        self.order = []
        self.parent = {}
        self.top = self.build(spec, None)
        self.root = spec
        self.runs = {}  # name -> [(ready, start, stop, finished)]

    def build(self, s, parent):
        kind, name = s[0], s[1]
        opts = s[-1] if isinstance(s[-1], dict) else {}
        self.spec[name] = s
        self.parent[name] = parent
        self.order.append(name)
        kw = dict(env=self.e, registry=self.reg, name=name)
        if "at" in opts:
            kw["start_event"] = [{"type": "time", "start_time": opts["at"]}]
        if "start_event" in opts:
            kw["start_event"] = opts["start_event"]
        if "delay" in opts:
            kw["delay_percentage"] = opts["delay"]
        if kind == "leaf":
            if not self.given or name not in self.dur:
                self.dur[name] = opts["d"] if "d" in opts else self.c.num(
                    "d_" + name, self.dlo, self.dmax, denom=self.grid)
            a = DBasic(duration=self.dur[name], additional_logs=opts.get("logs"), **kw)
        else:
            subs = [self.build(x, name) for x in (s[3] if kind == "rep" else s[2])]
            if kind == "seq":
                a = DSeq(sub_processes=subs, **kw)
            elif kind == "par":
                a = DPar(sub_processes=subs, **kw)
            else:
                a = DRep(sub_processes=subs, repetitions=s[2], **kw)
        if "late" in opts:
            a.register_plugin(Late(opts["late"]))
        self.acts[name] = a
        return a

    def subs(self, name):
        s = self.spec[name]
        return [] if s[0] == "leaf" else [x[1] for x in (s[3] if s[0] == "rep" else s[2])]

    def opts(self, name):
        s = self.spec[name]
        return s[-1] if isinstance(s[-1], dict) else {}

    def plan(self, name, ready):
        """When the activity should run if its turn comes at ready; its finish."""
        s, o = self.spec[name], self.opts(name)
        start = begin(ready, o)
        i = len(self.runs.setdefault(name, []))
        self.runs[name].append(None)
        if s[0] == "leaf":
            stop = start + self.dur[name]
        elif s[0] == "par":
            stop = mx(*[self.plan(n, start) for n in self.subs(name)])
        else:
            stop = start
            for _ in range(s[2] if s[0] == "rep" else 1):
                for n in self.subs(name):
                    stop = self.plan(n, stop)
        fin = stop + (stop - start) * o["delay"] / 100 if "delay" in o else stop
        self.runs[name][i] = (ready, start, stop, fin)
        return fin

    def expect(self, t0=0):
        self.runs = {}
        self.end = self.plan(self.root[1], t0)
        return self.end

    def actual(self, name):
        """[(start, stop)] that the activity itself logged."""
        return intervals(self.acts[name])[0]

    def parts(self, name):
        """What a structure logged about its parts: {part: [(start, stop)]}."""
        a = self.acts[name]
        ids = {self.acts[n].id: n for n in self.subs(name)}
        r = {n: ([], []) for n in self.subs(name)}
        stray = 0
        for t, aid, s, o, lab in entries(a):
            if not lab:
                continue
            if lab.get("type") == "subprocess":
                n = ids.get(lab.get("ref"))
                if n is None or s not in ("START", "STOP") or aid != a.id:
                    stray += 1
                else:
                    r[n][0 if s == "START" else 1].append(t)
        return r, stray


def leaf(n, **o):
    return ("leaf", n, o)


def seq(n, *t, **o):
    return ("seq", n, list(t), o)


def par(n, *t, **o):
    return ("par", n, list(t), o)


def rep(n, k, *t, **o):
    return ("rep", n, k, list(t), o)


def shapes(small=True):
    """Nestings of the structural activities."""
    L = leaf
    r = {
        "seq(par)": seq("s", L("a"), par("p", L("b"), seq("q", L("x"), L("y"))), L("z")),
        "par(seq)": par("p", seq("s", L("a"), L("b")), L("x"), seq("q", L("y"), L("z"))),
        "rep(par)": rep("r", 2, par("p", L("a"), L("b")), L("x")),
        "seq(rep)": seq("s", rep("r", 2, seq("q", L("a"), L("b"))), par("p", L("x"), L("y"))),
        "par(par)": par("p", par("q", L("a"), L("b")), seq("s", L("x"), par("o", L("y"), L("z")))),
        "rep(seq)": rep("r", 2, L("a"), seq("q", L("b"), L("x"))),
        "rep(rep)": rep("r", 2, rep("q", 2, L("a")), L("b")),
        "par(rep)": par("p", rep("r", 3, L("a")), rep("q", 2, L("x"), L("y"))),
    }
    if not small:
        r.update({
            "rep(par(rep))": rep("r", 2, par("p", rep("q", 2, L("a"), L("b")), L("x"),
                                             seq("s", L("y"), L("z")))),
            "seq(seq(seq))": seq("s", seq("q", seq("o", L("a"), L("b")), par("p", L("x"), L("y"))),
                                 par("u", seq("v", L("z"), L("w")), L("k"))),
            "rep(par, rep)": rep("r", 2, L("a"), par("p", L("b"), rep("q", 2, L("x"), L("y")))),
            "par4": par("p", L("a"), L("b"), L("x"), L("y"), L("z")),
            "rep(seq(par(seq)))": rep("r", 2, seq("s", par("p", seq("q", L("a"), L("b")),
                                                           L("x"), L("y"))), L("z")),
        })
    return r


def with_waits(c, tmax=4):
    """The same nestings with start times and delays inside."""
    L = leaf
    at = {"at": c.num("at", 0, tmax)}
    pct = {"delay": c.choice("percent", [50, 100])}
    late = {"late": at["at"]}
    return {
        "wait in sequence": seq("s", L("a"), L("b", **at), seq("q", L("x", **pct), L("y"))),
        "wait in parallel": par("p", L("a", **at), seq("s", L("b", **pct), L("x")), L("y")),
        "wait in loop": rep("r", 2, L("a"), par("p", L("b", **at), L("x", **pct))),
        "structures that wait": seq("s", L("a"), par("p", L("b"), seq("q", L("x"), L("y"), **at)),
                                    rep("r", 2, L("z"), **pct)),
        "structures that are late": seq("s", L("a"), par("p", L("b"), seq("q", L("x"), **late), **late),
                                        rep("r", 2, L("y", **late), L("z"), **late), **late),
    }
