"""C19 Material is only shifted between objects at the same place."""

import pyproj
import shapely.geometry

from .base import *  # noqa: F401,F403

GEOD = pyproj.Geod(ellps="WGS84")


def dist(a, b):
    return a - b if a >= b else b - a


def far_from(c, *ds):
    """Rounding of real coordinates cannot matter: not exactly at the limit."""
    for d, tol in ds:
        c.assume(or_(d - tol >= 0.125, tol - d >= 0.125))


def together(c):
    """is_at, both ways, any distance, default and given tolerance."""
    e = Env()
    x = c.int("x", 0, 1000) + c.choice("part of a metre", [0, 0.2, 0.8])
    y = c.int("y", 0, 1000)
    d = dist(x, y)
    A = site(e, "A", capacity=5, geometry=senv.place(c, 0, x))
    B = site(e, "B", capacity=5, geometry=senv.place(c, 1, y))
    tol = c.choice("tolerance", [None, 100, 0, 10, 500])
    far_from(c, (d, 100 if tol is None else tol))
    kw = {} if tol is None else {"tolerance": tol}
    at, ta = A.is_at(B, **kw), B.is_at(A, **kw)
    c.check(bool(at) == bool(ta), "whether two objects are together depends on who is asked")
    near = d < (100 if tol is None else tol)
    if near:
        c.check(bool(at), "objects closer than the tolerance do not count as together")
        c.cover("near")
    else:
        c.check(not at, "objects not closer than the tolerance count as together")
        c.cover("far")


def shift(c, tmax=2, amax=4):
    """A shift between objects at any distance; they may move away while it waits."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    lv = c.int("level", 1, amax)
    who = c.choice("processor", ["crane", "destination", "origin"])
    xs = [c.int(f"x{i}", 0, 300) for i in range(3 if who == "crane" else 2)]
    pts = [senv.place(c, i, x) for i, x in enumerate(xs)]
    A = vessel(e, "A", capacity=9, level=lv, geometry=pts[0])
    B = vessel(e, "B", capacity=9, geometry=pts[1])
    if who == "crane":
        cr = cranes(e, ["c"])[0]
        cr.geometry = pts[2]
    dp = dist(xs[2] if who == "crane" else xs[1], xs[0]) if who != "origin" else 0
    dd = dist(xs[1], xs[0])
    far_from(c, (dp, 100), (dd, 100))
    p = {"crane": cr if who == "crane" else None, "destination": B, "origin": A}[who]
    s = Shift(name="s", processor=p, origin=A, destination=B, duration=1,
              amount=c.int("amount", 1, amax), **kw)
    model.register_processes([s])
    failed = False
    try:
        run(c, e)
    except AssertionError:
        failed = True
    if dp < 100 and dd < 100:
        c.check(not failed, "a shift between objects at the same place fails")
        c.check(level(B) == mn(lv, s.amount), "a shift between objects at the same place moves nothing")
        c.cover("near")
    else:
        c.check(failed, "a shift between objects that are not at the same place does not fail")
        c.check(and_(level(A) == lv, level(B) == 0),
                "material moves between objects that are not at the same place")
        c.check(intervals(s)[1] == 0, "a shift between objects not at the same place is logged")
        c.cover("far")


def leaves(c, tmax=3):
    """One of the objects leaves while the shift waits for it to be free."""
    e = Env(max_steps=900)
    reg = {}
    kw = dict(env=e, registry=reg)
    x = c.int("x", 0, 300)
    far_from(c, (x, 100))
    here, there = senv.place(c, 0, 0), senv.place(c, 1, x)
    X = site(e, "X", capacity=9, geometry=there)
    A, B = site(e, "A", capacity=9, level=4, geometry=here), site(e, "B", capacity=9, geometry=here)
    v = vessel(e, "v", capacity=9, level=3, geometry=here)
    role = c.choice("role", ["origin", "destination", "processor"])
    d, t = c.int("d", 1, tmax), c.int("t", 0, tmax) + 0.5
    m = Move(name="m", mover=v, destination=X, duration=d, **kw)
    cr = cranes(e, ["c"])[0]
    cr.geometry = here
    o, de, p = {"origin": (v, B, cr), "destination": (A, v, cr),
                "processor": (A, B, v)}[role]
    s = Shift(name="s", processor=p, origin=o, destination=de, duration=1, amount=1, **kw)
    w = Basic(name="w", duration=t, **kw)
    q = Seq(name="q", sub_processes=[w, s], **kw)
    before = [level(z) for z in (A, B, v)]
    model.register_processes([m, q])
    failed = False
    try:
        run(c, e)
    except AssertionError:
        failed = True
    if x < 100:
        c.check(not failed, "a shift between objects at the same place fails")
        c.cover("near")
    else:
        c.check(failed, "a shift goes on although an object has left")
        for z, lv in zip((A, B, v), before):
            c.check(level(z) == lv, "material moves although an object has left")
        c.cover("waited" if t < d else "gone")


def places(c):
    """Real coordinates near the limit, in all directions and on all latitudes."""
    e = Env(max_steps=300)
    lat = c.choice("latitude", [0.0, 52.0, -33.0, 80.0])
    lon = c.choice("longitude", [4.0, 179.9999, -120.0])
    az = c.choice("azimuth", [0, 45, 90, 180, 270])
    d = c.choice("metres", [0, 60, 99, 101, 140, 20000])
    lon2, lat2, _ = GEOD.fwd(lon, lat, az, d)
    a, b = shapely.geometry.Point(lon, lat), shapely.geometry.Point(lon2, lat2)
    if c.flag("swap"):
        a, b = b, a
    lv = c.int("level", 1, 5)
    A, B = site(e, "A", capacity=9, level=lv, geometry=a), site(e, "B", capacity=9, geometry=b)
    cr = Crane(env=e, name="c", geometry=a, loading_rate=1, unloading_rate=1)
    s = Shift(name="s", env=e, registry={}, processor=cr, origin=A, destination=B, duration=1)
    c.check(bool(A.is_at(B)) == (d < 100), "is_at is not the geodesic distance")
    model.register_processes([s])
    try:
        run(c, e)
        c.check(d < 100, "a shift over more than 100 m")
        c.check(level(B) == lv, "a shift moves another amount")
        c.cover("near")
    except AssertionError:
        c.check(d >= 100, "a shift over less than 100 m fails")
        c.check(and_(level(A) == lv, level(B) == 0), "material moves over more than 100 m")
        c.cover("far")


SCENARIOS = [
    Scenario("together", together, quick=dict(), thorough=dict(), covers=["near", "far"],
             what="two objects at any distance"),
    Scenario("shift", shift, quick=dict(), thorough=dict(amax=9), covers=["near", "far"],
             what="a shift between objects at any distances"),
    Scenario("leaves", leaves, quick=dict(), thorough=dict(tmax=6),
             covers=["near", "waited", "gone"], what="an object leaves before the shift"),
    Scenario("places", places, quick=dict(), thorough=dict(), covers=["near", "far"],
             what="real coordinates"),
]
