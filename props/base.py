"""Shared harness helpers: building configurations through OpenCLSim's public
API and observing them (logs, container levels, resources, simpy steps)."""

import simpy
import shapely.geometry

import openclsim.core as core
import openclsim.model as model
import openclsim.plugins as plugins  # noqa: F401
from openclsim.critical_path.base_cp import BaseCP  # noqa: F401  (force import)

from symex import env as senv
from symex.engine import (PathEnd, SymNum, and_, implies, not_, or_)  # noqa: F401
from symex.run import Scenario  # noqa: F401

P0 = shapely.geometry.Point(0, 0)
P1 = shapely.geometry.Point(0.01, 0)
P2 = shapely.geometry.Point(0, 0.02)


class ByName:
    """Deterministic hashing, so that a run is a function of its inputs only (and
    of the salt: C31 runs plans in worlds whose sets have another order)."""

    salt = 0

    def __hash__(self):
        h = 0
        for ch in self.name:
            h = (h * 131 + ord(ch)) % 1000003
        return h ^ ByName.salt

    def __eq__(self, o):
        return self is o


class Site(ByName, core.Identifiable, core.Log, core.Locatable, core.HasContainer,
           core.HasResource):
    pass


class MultiSite(ByName, core.Identifiable, core.Log, core.Locatable, core.HasMultiContainer,
                core.HasResource):
    pass


class Vessel(ByName, core.Processor, core.HasResource, core.ContainerDependentMovable,
             core.Identifiable, core.Log):
    """Shifts material and moves, no rate functions."""


class RateVessel(ByName, core.Processor, core.LoadingFunction, core.UnloadingFunction,
                 core.HasResource, core.ContainerDependentMovable, core.Identifiable, core.Log):
    pass


class MultiVessel(ByName, core.Processor, core.HasResource, core.MultiContainerDependentMovable,
                  core.Identifiable, core.Log):
    pass


class MultiRateVessel(ByName, core.Processor, core.LoadingFunction, core.UnloadingFunction,
                      core.HasResource, core.MultiContainerDependentMovable, core.Identifiable,
                      core.Log):
    pass


class Crane(ByName, core.Processor, core.LoadingFunction, core.UnloadingFunction,
            core.HasResource, core.Locatable, core.Identifiable, core.Log):
    pass


def _named(cls):
    return type(cls.__name__, (ByName, cls), {"__module__": cls.__module__})


Move = _named(model.MoveActivity)
Shift = _named(model.ShiftAmountActivity)
Basic = _named(model.BasicActivity)
Seq = _named(model.SequentialActivity)
Par = _named(model.ParallelActivity)
While = _named(model.WhileActivity)
Repeat = _named(model.RepeatActivity)


class Env(simpy.Environment):
    """simpy's environment with a step bound and step observers."""

    def __init__(self, *a, max_steps=4000, **k):
        super().__init__(*a, **k)
        self.left = max_steps
        self.watch = []

    def step(self):
        self.left -= 1
        if self.left < 0:
            raise StepLimit()
        super().step()
        for w in self.watch:
            w()


class StepLimit(BaseException):
    """More events than the harness allows (a livelock, or a too small bound)."""


def run(c, env, what="the simulation"):
    """Runs to the end.  A run that does not end is a failure of the property."""
    try:
        env.run()
    except StepLimit:
        c.fail(f"{what} does not end (event bound reached)")
        c.end("steps")


def site(env, name, capacity, level=0, nr=1, geometry=P0, **k):
    return Site(env=env, name=name, geometry=geometry, capacity=capacity, level=level,
                nr_resources=nr, **k)


def vessel(env, name, capacity, level=0, geometry=P0, v=1, cls=Vessel, **k):
    return cls(env=env, name=name, geometry=geometry, capacity=capacity, level=level,
               compute_v=(v if callable(v) else (lambda x: v)), **k)


def entries(obj):
    """The logbook of an object as simple tuples (t, activity id, state, object state, label)."""
    return [(senv.seconds(e["Timestamp"]), e["ActivityID"], e["ActivityState"],
             e["ObjectState"], e["ActivityLabel"]) for e in obj.logbook]


def own(act):
    """The entries an activity makes about itself (no sub-process / plugin labels)."""
    return [(t, s) for t, a, s, o, lab in entries(act)
            if a == act.id and not lab]


def intervals(act, start="START", stop="STOP"):
    """(start, stop) pairs of the runs of an activity, in log order."""
    st = [t for t, s in own(act) if s == start]
    en = [t for t, s in own(act) if s == stop]
    return list(zip(st, en)), len(st), len(en)


def first(act, state):
    for t, s in own(act):
        if s == state:
            return t
    return None


def level(obj, id_="default"):
    return obj.container.get_level(id_)


def mx(*xs):
    r = xs[0]
    for x in xs[1:]:
        if x > r:
            r = x
    return r


def mn(*xs):
    r = xs[0]
    for x in xs[1:]:
        if x < r:
            r = x
    return r


def eqall(c, pairs, msg):
    for a, b in pairs:
        c.check(a == b, msg)


def is_finished(act):
    p = getattr(act, "main_process", None)
    return p is not None and p.triggered


def snapshot(objs, ids=("default",)):
    return {(o.name, i): o.container.get_level(i) for o in objs for i in ids}


class Instants:
    """Levels of containers at the end of every simulated instant, and between
    any two simulation steps."""

    def __init__(self, env, objs, ids=("default",), on_step=None):
        self.env, self.objs, self.ids, self.on_step = env, objs, ids, on_step
        self.at = [(env.now, snapshot(objs, ids))]  # before the first event
        self.last = self.at[0][1]
        env.watch.append(self.step)

    def step(self):
        s = snapshot(self.objs, self.ids)
        if self.on_step is not None:
            self.on_step(self.last, s)
        self.last = s
        if not self.env._queue or self.env.peek() > self.env.now:
            self.at.append((self.env.now, s))

    def close(self):
        """The simulation was ended by an error in the middle of an instant."""
        self.at.append((self.env.now, snapshot(self.objs, self.ids)))

    def at_end_of(self, t):
        """Levels when instant t is over."""
        r = self.at[0][1]
        for u, s in self.at[1:]:
            if u <= t:
                r = s
            else:
                break
        return r

    def before(self, t):
        """Levels just before instant t."""
        r = self.at[0][1]
        for u, s in self.at[1:]:
            if u < t:
                r = s
            else:
                break
        return r


def cranes(env, names, rate=1, **k):
    return [Crane(env=env, name=n, geometry=P0, loading_rate=rate, unloading_rate=rate, **k)
            for n in names]


def close(a, b, tol=1 / 1024):
    """Equal up to a rounding margin (where the code divides or multiplies)."""
    return and_(a - b <= tol, b - a <= tol)


class Memo:
    """The same inputs for several runs of a plan (self-composition)."""

    def __init__(self, c, t0=0, **extra):
        self._c, self._m, self.t0 = c, {}, t0
        self.__dict__.update(extra)

    def again(self, t0=0, **extra):
        m = Memo(self._c, t0, **extra)
        m._m = self._m
        return m

    def _get(self, f, name, *a, **k):
        if name not in self._m:
            self._m[name] = getattr(self._c, f)(name, *a, **k)
        return self._m[name]

    def int(self, name, *a, **k):
        return self._get("int", name, *a, **k)

    def num(self, name, *a, **k):
        return self._get("num", name, *a, **k)

    def choice(self, name, *a, **k):
        return self._get("choice", name, *a, **k)

    def flag(self, name, *a, **k):
        return self._get("flag", name, *a, **k)

    def __getattr__(self, n):
        return getattr(self._c, n)
