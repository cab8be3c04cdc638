"""Dynamic symbolic execution of real Python code, decided by an SMT solver.

The code under test is *executed*, unmodified, on proxy values (SymNum) that
carry an exact linear (or, through auxiliary variables, polynomial) expression
over the symbolic inputs.  Whenever the executed code (or simpy, heapq, pandas,
networkx below it) needs the truth value of a comparison of such values, the
engine records the condition as a path constraint and follows the side taken
by the current concrete assignment.  After a run every recorded condition is
negated in turn under its prefix and given to z3: `sat` yields the inputs of a
new path, `unsat` proves that no input within the bounds takes the other side.
The exploration is complete when no open alternative is left; the property
conditions collected on each path are then discharged by one z3 query per path
over *all* inputs that take this path.
"""

from __future__ import annotations

import math
import numbers
import operator
import time
from fractions import Fraction

import z3

__all__ = ["Ctx", "SymNum", "SymBool", "Explorer", "PathEnd", "and_", "or_", "not_",
           "implies", "eq", "le", "lt", "ge", "gt", "ne", "ite"]


class PathEnd(BaseException):
    """Ends the current path (assumption violated / bound reached)."""


class PropertyFailure(BaseException):
    """The property is violated by the current (concrete) assignment."""


_CTX = None  # the active symbolic context


class Var:
    __slots__ = ("name", "lo", "hi", "is_int", "defn", "z")

    def __init__(self, name, lo, hi, is_int, defn=None):
        self.name, self.lo, self.hi, self.is_int, self.defn = name, lo, hi, is_int, defn
        self.z = None


# Variables are interned per process, so that expressions of different paths
# over the same inputs are identical objects for the solver cache.
_VT = []  # index -> Var
_VNAMES = {}  # (name, lo, hi) or auxiliary key -> index


def _intern(key, name, lo, hi, is_int, defn=None):
    i = _VNAMES.get(key)
    if i is None:
        i = len(_VT)
        _VT.append(Var(name, lo, hi, is_int, defn))
        _VNAMES[key] = i
    return i


def ctx():
    return _CTX


def _norm(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def to_exact(x):
    """A plain python/numpy number as exact int/Fraction; None if not finite."""
    if type(x) is int or type(x) is Fraction:
        return x
    if type(x) is bool:
        return int(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real) or hasattr(x, "__float__"):
        f = float(x)
        if not math.isfinite(f):
            return None
        return _norm(Fraction(f))
    return None


def is_plain_number(x):
    t = type(x)
    if t is int or t is float or t is Fraction or t is bool:
        return True
    if t is SymNum or t is SymBool:
        return False
    if isinstance(x, numbers.Number) and not isinstance(x, complex):
        return True
    return False


# --------------------------------------------------------------------------
# symbolic numbers


class SymNum:
    """k + sum(c_i * v_i); v_i symbolic inputs or auxiliary (defined) variables."""

    __slots__ = ("lin", "k")

    def __init__(self, lin, k):
        self.lin = lin  # tuple of (var index, coefficient), sorted, coefficients != 0
        self.k = k

    # isinstance(x, int) / isinstance(x, float) see the type a replay would use
    @property
    def __class__(self):
        if type(self.k) is int and all(type(c) is int for _, c in self.lin):
            if all(_VT[v].is_int for v, _ in self.lin):
                return int
        return float

    # --- helpers
    def concrete(self):
        vals = _CTX.vals
        r = self.k
        for v, c in self.lin:
            r = r + c * vals[v]
        return _norm(r)

    @staticmethod
    def lift(x):
        if type(x) is SymNum:
            return x
        e = to_exact(x)
        return None if e is None else SymNum((), e)

    # --- arithmetic
    def _add(self, o, s):
        k = self.k + o.k if s == 1 else self.k - o.k
        if type(k) is Fraction:
            k = _norm(k)
        if not o.lin:
            return SymNum(self.lin, k)
        d = dict(self.lin)
        for v, c in o.lin:
            n = d.get(v, 0) + (c if s == 1 else -c)
            if n == 0:
                del d[v]
            else:
                d[v] = _norm(n)
        return SymNum(tuple(sorted(d.items())), k)

    def _scale(self, f):
        if f == 0:
            return SymNum((), 0)
        return SymNum(tuple((v, _norm(c * f)) for v, c in self.lin), _norm(self.k * f))

    def __add__(self, o):
        if type(o) is SymNum:
            return self._add(o, 1)
        if is_plain_number(o):
            e = to_exact(o)
            if e is None:
                return float(o)
            return SymNum(self.lin, _norm(self.k + e))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymNum:
            return self._add(o, -1)
        if is_plain_number(o):
            e = to_exact(o)
            if e is None:
                return -float(o)
            return SymNum(self.lin, _norm(self.k - e))
        return NotImplemented

    def __rsub__(self, o):
        if is_plain_number(o):
            e = to_exact(o)
            if e is None:
                return float(o)
            return self._scale(-1)._add(SymNum((), e), 1)
        return NotImplemented

    def __neg__(self):
        return self._scale(-1)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __mul__(self, o):
        if type(o) is SymNum:
            if not o.lin:
                return self._scale(o.k)
            if not self.lin:
                return o._scale(self.k)
            return _CTX.aux("mul", self, o)
        if is_plain_number(o):
            e = to_exact(o)
            if e is None:
                c = self.concrete()
                return float(o) * float(c)
            return self._scale(e)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is SymNum and o.lin:
            if o == 0:
                raise ZeroDivisionError("division by zero")
            return _CTX.aux("div", self, o)
        if type(o) is SymNum:
            o = o.k
        if is_plain_number(o):
            e = to_exact(o)
            if e is None:
                return SymNum((), 0)
            if e == 0:
                raise ZeroDivisionError("division by zero")
            return self._scale(Fraction(1) / e)
        return NotImplemented

    def __rtruediv__(self, o):
        if is_plain_number(o):
            e = to_exact(o)
            if e is None:
                return float(o)
            return SymNum((), e).__truediv__(self)
        return NotImplemented

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        if q is NotImplemented:
            return q
        return q.__floor__()

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        if q is NotImplemented:
            return q
        return q.__floor__()

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def __rmod__(self, o):
        q = self.__rfloordiv__(o)
        if q is NotImplemented:
            return q
        return o - q * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if isinstance(n, int) and type(n) is not SymNum and 0 <= n <= 4:
            r = SymNum((), 1)
            for _ in range(n):
                r = r * self
            return r
        c = _CTX.concretise(self, "pow")
        return c ** n

    def __rpow__(self, b):
        return b ** _CTX.concretise(self, "pow")

    def __floor__(self):
        if not self.lin:
            return SymNum((), math.floor(self.k))
        if type(self).__class__ is int:
            return self
        return _CTX.aux("floor", self, None)

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if self < 0:
            return self.__ceil__()
        return self.__floor__()

    def __round__(self, n=None):
        nd = 0 if n is None else n
        unit = Fraction(1, 10 ** nd) if nd >= 0 else Fraction(10 ** (-nd))

        def on_grid(c):
            return (Fraction(c) / unit).denominator == 1

        if on_grid(self.k) and all(on_grid(c) and _VT[v].is_int for v, c in self.lin):
            return self
        return _CTX.aux("round", self._scale(1 / unit), None)._scale(unit)

    def __int__(self):
        t = self.__trunc__()
        return int(_CTX.concretise(t, "int"))

    __index__ = __int__

    def __float__(self):
        return float(_CTX.concretise(self, "float"))

    def __complex__(self):
        return complex(float(self))

    def is_integer(self):
        return self.__floor__() == self

    # numpy's object loops look these up by name
    def conjugate(self):
        return self

    def rint(self):
        return self.__round__()

    # --- comparisons
    def _cmp(self, o, op):
        if type(o) is not SymNum:
            if not is_plain_number(o):
                return NotImplemented
            e = to_exact(o)
            if e is None:
                return op(0.0, float(o))
            o = SymNum((), e)
        d = self._add(o, -1)
        if not d.lin:
            return op(d.k, 0)
        return _atom(d, op)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SymNum, (self.lin, self.k))

    def __repr__(self):
        if not self.lin:
            return str(self.k)
        names = [_VT[v].name for v, _ in self.lin]
        s = " + ".join(f"{c}*{n}" for (v, c), n in zip(self.lin, names))
        return f"<{s} + {self.k}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


# --------------------------------------------------------------------------
# symbolic booleans: ("lt"|"le"|"eq"|"ne", lin, k) meaning  lin + k  OP  0
#                    ("and"|"or", (keys...)), ("not", key)


def _canon(lin, k, op):
    """Canonical atom: coprime integer coefficients; over integer variables only
    "le"/"eq"/"ne" remain and the constant is tightened.  May return a constant."""
    for _, c in lin:
        if type(c) is Fraction:
            break
    else:
        if type(k) is int:
            return _canon_int(lin, k, op)
    den = 1
    for _, c in lin:
        if type(c) is Fraction:
            den = den * c.denominator // math.gcd(den, c.denominator)
    if type(k) is Fraction:
        den = den * k.denominator // math.gcd(den, k.denominator)
    lin = tuple((v, int(c * den)) for v, c in lin)
    return _canon_int(lin, int(k * den), op)


def _canon_int(lin, k, op):
    g = 0
    allint = True
    for v, c in lin:
        g = math.gcd(g, c)
        if not _VT[v].is_int:
            allint = False
    if allint:
        if op == "lt":
            op, k = "le", k + 1
        if g > 1:
            lin = tuple((v, c // g) for v, c in lin)
            if op == "le":  # lin <= -k/g
                k = -((-k) // g)
            elif k % g:
                return ("const", op == "ne")
            else:
                k = k // g
    else:
        g = math.gcd(g, k)
        if g > 1:
            lin = tuple((v, c // g) for v, c in lin)
            k = k // g
    if op in ("eq", "ne") and lin[0][1] < 0:
        lin = tuple((v, -c) for v, c in lin)
        k = -k
    return (op, lin, k)


_OPS = {operator.lt: "lt", operator.le: "le", operator.eq: "eq", operator.ne: "ne"}


def _atom(d, op):
    if op is operator.gt:
        d, op = d._scale(-1), operator.lt
    elif op is operator.ge:
        d, op = d._scale(-1), operator.le
    key = _canon(d.lin, d.k, _OPS[op])
    r = _CTX.decided(key)
    return SymBool(key) if r is None else r


def _neg(lin):
    return tuple((v, -c) for v, c in lin)


def _negkey(key):
    op = key[0]
    if op == "le":
        if all(_VT[v].is_int for v, _ in key[1]):  # not (e<=0)  <=>  1-e <= 0
            return ("le", _neg(key[1]), 1 - key[2])
        return ("lt", _neg(key[1]), -key[2])
    if op == "lt":  # not (e<0)  <=>  -e <= 0
        return ("le", _neg(key[1]), -key[2])
    if op == "eq":
        return ("ne", key[1], key[2])
    if op == "ne":
        return ("eq", key[1], key[2])
    if op == "and":
        return ("or", tuple(_negkey(x) for x in key[1]))
    if op == "or":
        return ("and", tuple(_negkey(x) for x in key[1]))
    if op == "const":
        return ("const", not key[1])
    raise AssertionError(key)


def _evalkey(key, vals):
    op = key[0]
    if op == "const":
        return key[1]
    if op == "and":
        return all(_evalkey(x, vals) for x in key[1])
    if op == "or":
        return any(_evalkey(x, vals) for x in key[1])
    r = key[2]
    for v, c in key[1]:
        r = r + c * vals[v]
    if op == "lt":
        return r < 0
    if op == "le":
        return r <= 0
    if op == "eq":
        return r == 0
    return r != 0


_STABLE = {}


def _stable(key):
    """A hash of an atom that does not depend on variable numbering."""
    h = _STABLE.get(key)
    if h is None:
        if key[0] == "const":
            h = hash(key)
        elif key[0] in ("and", "or"):
            h = hash((key[0],) + tuple(_stable(x) for x in key[1]))
        else:
            lin, k = sorted((_VT[v].name, c) for v, c in key[1]), key[2]
            if key[0] in ("eq", "ne") and lin[0][1] < 0:
                lin, k = [(n, -c) for n, c in lin], -k
            h = hash((key[0], tuple(lin), k))
        _STABLE[key] = h
    return h


class SymBool:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _CTX.branch(self.key)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<SymBool {self.key[0]}>"


def _key(x):
    if type(x) is SymBool:
        return x.key
    return ("const", bool(x))


def _mk(op, parts):
    absorbing = op == "or"
    out = []
    for p in parts:
        k = _key(p)
        if k[0] == "const":
            if k[1] == absorbing:
                return absorbing
            continue
        if k[0] == op:
            out.extend(k[1])
        else:
            out.append(k)
    if not out:
        return not absorbing
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool((op, tuple(out)))


def and_(*parts):
    """Conjunction without forking (works on plain booleans as well)."""
    return _mk("and", parts)


def or_(*parts):
    return _mk("or", parts)


def not_(x):
    k = _key(x)
    if k[0] == "const":
        return not k[1]
    return SymBool(_negkey(k))


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def le(a, b):
    return a <= b


def lt(a, b):
    return a < b


def ge(a, b):
    return a >= b


def gt(a, b):
    return a > b


def ite(c, a, b):
    """Forking if-then-else."""
    return a if c else b


# --------------------------------------------------------------------------


class Ctx:
    """One run of a harness, in symbolic mode."""

    symbolic = True

    def __init__(self, inputs):
        self.inputs = inputs
        self.vals = [None] * len(_VT)
        self.used = {}
        self.trace = []  # (key, taken, kind)
        self.known = {}
        self.ub = {}  # linear form -> largest value it can have on this path
        self.checks = []  # (key, message)
        self.n_trivial = 0
        self.covers = set()
        self.concretised = 0
        self.notes = {}

    # --- inputs
    def _setval(self, idx, val):
        vals = self.vals
        while len(vals) <= idx:
            vals.append(None)
        vals[idx] = val

    def _input(self, name, lo, hi, default):
        if name in self.used:
            raise RuntimeError(f"duplicate symbolic input {name}")
        val = self.inputs.get(name, lo if default is None else default)
        val = min(max(val, lo), hi)
        idx = _intern((name, lo, hi), name, lo, hi, True)
        self._setval(idx, val)
        self.used[name] = val
        return idx

    def int(self, name, lo, hi, default=None):
        """A symbolic integer in [lo, hi]."""
        if lo == hi:
            return lo
        return SymNum(((self._input(name, lo, hi, default), 1),), 0)

    def num(self, name, lo, hi, denom=8, default=None):
        """A symbolic dyadic rational in [lo, hi] with step 1/denom.

        Exactly representable as a float, so that a replay with python floats
        performs the same additions and comparisons.
        """
        d = None if default is None else int(default * denom)
        i = self._input(name, int(lo * denom), int(hi * denom), d)
        return SymNum(((i, Fraction(1, denom)),), 0)

    def choice(self, name, options, default=None):
        """A symbolic choice: explored by forking, every option is visited."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._input(name, 0, len(options) - 1, default)
        v = SymNum(((i, 1),), 0)
        for j in range(len(options) - 1):
            if v == j:
                return options[j]
        return options[-1]

    def flag(self, name, default=None):
        return self.choice(name, [False, True], default)

    def const(self, x):
        return SymNum.lift(x)

    # --- auxiliary (defined) variables
    def aux(self, kind, a, b):
        key = (kind, a.lin, a.k, None if b is None else (b.lin, b.k))
        idx = _VNAMES.get(key)
        if idx is None:
            sa = tuple(sorted((_VT[v].name, str(c)) for v, c in a.lin)), str(a.k)
            sb = None if b is None else (
                tuple(sorted((_VT[v].name, str(c)) for v, c in b.lin)), str(b.k))
            name = f"${kind}_{hash((kind, sa, sb)) & 0xFFFFFFFFFFFF:x}"
            idx = _intern(key, name, None, None, kind in ("floor", "round"), (kind, a, b))
        if idx >= len(self.vals) or self.vals[idx] is None:
            ca = a.concrete()
            if kind == "mul":
                val = ca * b.concrete()
            elif kind == "div":
                val = Fraction(ca) / b.concrete()
            elif kind == "floor":
                val = math.floor(ca)
            elif kind == "round":
                val = round(ca)
            else:
                raise AssertionError(kind)
            self._setval(idx, _norm(val))
        return SymNum(((idx, 1),), 0)

    # --- path condition
    def bound(self, lin):
        """Largest value of a linear form (None: unbounded)."""
        r = self.ub.get(lin)
        if r is None:
            r = 0
            for v, c in lin:
                var = _VT[v]
                if var.lo is None:
                    return None
                r += c * (var.hi if c > 0 else var.lo)
            self.ub[lin] = r
        return r

    def decided(self, key):
        """True/False when the path condition already (syntactically) decides key."""
        op = key[0]
        if op == "const":
            return key[1]
        kn = self.known.get(key)
        if kn is not None:
            return kn
        if op == "and" or op == "or":
            absorb = op == "or"
            allknown = True
            for x in key[1]:
                d = self.decided(x)
                if d is absorb:
                    return absorb
                if d is None:
                    allknown = False
            return (not absorb) if allknown else None
        lin, k = key[1], key[2]
        hi = self.bound(lin)
        if op == "le":
            if hi is not None and hi <= -k:
                return True
            lo = self.bound(_neg(lin))
            if lo is not None and -lo > -k:
                return False
            return None
        if op == "lt":
            if hi is not None and hi < -k:
                return True
            lo = self.bound(_neg(lin))
            if lo is not None and -lo >= -k:
                return False
            return None
        lo = self.bound(_neg(lin))
        if hi is not None and hi < -k or lo is not None and -lo > -k:
            return op == "ne"
        if hi is not None and lo is not None and hi == -lo == -k:
            return op == "eq"
        return None

    def learn(self, key, taken):
        self.known[key] = taken
        nk = _negkey(key)
        self.known[nk] = not taken
        k = key if taken else nk
        if k[0] in ("le", "lt"):
            b = self.bound(k[1])
            if b is None or -k[2] < b:
                self.ub[k[1]] = -k[2]
        elif k[0] == "eq":
            b = self.bound(k[1])
            if b is None or -k[2] < b:
                self.ub[k[1]] = -k[2]
            n = _neg(k[1])
            b = self.bound(n)
            if b is None or k[2] < b:
                self.ub[n] = k[2]
        elif k[0] == "and":
            for x in k[1]:
                self.learn(x, True)

    def branch(self, key):
        kn = self.decided(key)
        if kn is not None:
            return kn
        taken = _evalkey(key, self.vals)
        self.trace.append((key, taken, "branch"))
        self.learn(key, taken)
        return taken

    def assume(self, cond):
        key = _key(cond)
        kn = self.decided(key)
        if kn is True:
            return
        if kn is False:
            raise PathEnd("assumption")
        ok = _evalkey(key, self.vals)
        self.trace.append((key, ok, "assume"))
        self.learn(key, ok)
        if not ok:
            raise PathEnd("assumption")

    def check(self, cond, msg):
        """The property: must hold for every input that takes this path."""
        key = _key(cond)
        kn = self.decided(key)
        if kn is True:
            self.n_trivial += 1
        elif kn is False:
            self.checks.append((("const", False), msg))
        else:
            self.checks.append((key, msg))

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        self.covers.add(label)

    def end(self, why="bound"):
        raise PathEnd(why)

    def concretise(self, x, why):
        """A real number for a symbolic value (C code needs one); forks."""
        if type(x) is not SymNum:
            return x
        if not x.lin:
            return x.k
        c = x.concrete()
        self.concretised += 1
        d = SymNum(x.lin, _norm(x.k - c))
        key = _canon(d.lin, d.k, "eq")
        if self.decided(key) is not True:
            self.trace.append((key, True, "pin"))
            self.learn(key, True)
        return c

    def value(self, x):
        """The concrete value of x under the current assignment (reporting only)."""
        return x.concrete() if type(x) is SymNum else x


class Replay:
    """The same interface on plain python numbers: no symbolic value, no stub."""

    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.used = {}
        self.failures = []
        self.covers = set()
        self.notes = {}
        self.n_checks = 0

    def _input(self, name, lo, hi, default):
        val = self.inputs.get(name, lo if default is None else default)
        val = min(max(val, lo), hi)
        self.used[name] = val
        return val

    def int(self, name, lo, hi, default=None):
        if lo == hi:
            return lo
        return self._input(name, lo, hi, default)

    def num(self, name, lo, hi, denom=8, default=None):
        d = None if default is None else int(default * denom)
        v = self._input(name, int(lo * denom), int(hi * denom), d)
        return v // denom if v % denom == 0 else v / denom

    def choice(self, name, options, default=None):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._input(name, 0, len(options) - 1, default)]

    def flag(self, name, default=None):
        return self.choice(name, [False, True], default)

    def const(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise PathEnd("assumption")

    def check(self, cond, msg):
        self.n_checks += 1
        if not cond:
            self.failures.append(msg)

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        self.covers.add(label)

    def end(self, why="bound"):
        raise PathEnd(why)

    def concretise(self, x, why):
        return x

    def value(self, x):
        return x


# --------------------------------------------------------------------------
# solver side

_ZC = None
_ZATOM = {}  # canonical key -> z3 expression (shared by all paths)
_ZDEF = {}  # variable index -> list of z3 constraints


def _zctx():
    global _ZC
    if _ZC is None:
        _ZC = z3.main_ctx()
    return _ZC


def _zvar(i):
    v = _VT[i]
    if v.z is None:
        # the bounds are part of the name: the same name with other bounds is
        # another variable
        nm = v.name if v.defn is not None else f"{v.name}[{v.lo},{v.hi}]"
        v.z = z3.Int(nm) if v.is_int else z3.Real(nm)
    return v.z


def _zlin(lin, k):
    real = type(k) is Fraction or any(
        not _VT[v].is_int or type(c) is Fraction for v, c in lin)
    parts = []
    for v, c in lin:
        z = _zvar(v)
        if real and _VT[v].is_int:
            z = z3.ToReal(z)
        if c != 1:
            z = (z3.Q(c.numerator, c.denominator) if type(c) is Fraction else c) * z
        parts.append(z)
    if k != 0 or not parts:
        if type(k) is Fraction:
            parts.append(z3.Q(k.numerator, k.denominator))
        else:
            parts.append(z3.RealVal(k) if real else z3.IntVal(k))
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def _zkey(key):
    z = _ZATOM.get(key)
    if z is not None:
        return z
    op = key[0]
    if op == "const":
        z = z3.BoolVal(key[1])
    elif op == "and":
        z = z3.And([_zkey(k) for k in key[1]])
    elif op == "or":
        z = z3.Or([_zkey(k) for k in key[1]])
    else:
        e = _zlin(key[1], key[2])
        if op == "lt":
            z = e < 0
        elif op == "le":
            z = e <= 0
        elif op == "eq":
            z = e == 0
        else:
            z = e != 0
    _ZATOM[key] = z
    return z


def _zdef(i):
    r = _ZDEF.get(i)
    if r is not None:
        return r
    v = _VT[i]
    z = _zvar(i)
    out = []
    deps = []
    if v.defn is None:
        out = [z >= v.lo, z <= v.hi]
    else:
        kind, a, b = v.defn
        for x in (a, b):
            if x is not None:
                deps.extend(w for w, _ in x.lin)
        za = _zlin(a.lin, a.k)
        if kind in ("mul", "div"):
            zb = _zlin(b.lin, b.k)
            if kind == "mul":
                out.append(z == za * zb)
            else:
                out.append(z * zb == za)
                out.append(zb != 0)
        elif kind == "floor":
            out.append(z3.And(z3.ToReal(z) <= za, za < z3.ToReal(z) + 1))
        elif kind == "round":  # over-approximates ties; the replay decides
            out.append(z3.And(z3.ToReal(z) * 2 - 1 <= 2 * za, 2 * za <= z3.ToReal(z) * 2 + 1))
    r = (out, deps)
    _ZDEF[i] = r
    return r


_KVARS = {}


def _kvars(key):
    r = _KVARS.get(key)
    if r is None:
        if key[0] in ("and", "or"):
            s = set()
            for k in key[1]:
                s.update(_kvars(k))
            r = tuple(s)
        elif key[0] == "const":
            r = ()
        else:
            r = tuple(v for v, _ in key[1])
        _KVARS[key] = r
    return r


class Solve:
    """One incremental z3 solver holding the current path prefix."""

    RLIMIT = 60_000_000

    def __init__(self):
        self.queries = 0
        self.unknowns = 0
        self.time = 0.0
        self.slow = 0.0
        self.stack = []  # decisions (key) asserted, one push level each
        self.declared = set()
        self.dlevels = []  # per level: variables declared there
        self.s = None
        self.since = 0
        self.fresh()

    def fresh(self):
        self.s = z3.SimpleSolver()
        self.s.set("rlimit", self.RLIMIT)
        self.stack = []
        self.declared = set()
        self.dlevels = []
        self.since = 0
        self.c = self.s.ctx.ref()

    def _assert(self, z):
        z3.Z3_solver_assert(self.c, self.s.solver, z.as_ast())

    def _declare(self, key):
        new = []
        st = [v for v in _kvars(key) if v not in self.declared]
        while st:
            i = st.pop()
            if i in self.declared:
                continue
            self.declared.add(i)
            new.append(i)
            out, deps = _zdef(i)
            for z in out:
                self._assert(z)
            st.extend(deps)
        return new

    def begin(self, prefix):
        """Bring the solver to the given list of decisions."""
        if self.since > 3000:
            self.fresh()
        n = 0
        st = self.stack
        m = min(len(st), len(prefix))
        while n < m and st[n] == prefix[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            for vs in self.dlevels[n:]:
                self.declared.difference_update(vs)
            del self.stack[n:]
            del self.dlevels[n:]
        for k in prefix[n:]:
            self.add(k)

    def add(self, key):
        z3.Z3_solver_push(self.c, self.s.solver)
        self.dlevels.append(self._declare(key))
        self._assert(_zkey(key))
        self.stack.append(key)

    def query(self, key, run):
        """Is key satisfiable together with the asserted prefix?  -> inputs | None | 'unknown'"""
        t = time.perf_counter()
        z3.Z3_solver_push(self.c, self.s.solver)
        new = self._declare(key)
        self._assert(_zkey(key))
        r = z3.Z3_solver_check(self.c, self.s.solver)
        self.since += 1
        m = None
        if r == 0:  # second opinion of a fresh, non-incremental solver
            s2 = z3.Solver()
            s2.set("timeout", 20000)
            s2.add(self.s.assertions())
            rr = s2.check()
            r = 1 if rr == z3.sat else -1 if rr == z3.unsat else 0
            if r == 1:
                m = s2.model()
        elif r == 1:
            m = self.s.model()
        res = None
        if r == 1:
            res = {}
            for name, val in run.used.items():
                res[name] = val
            for i in self.declared:
                v = _VT[i]
                if v.defn is None:
                    d = m.eval(v.z, model_completion=True)
                    res[v.name] = d.as_long()
        elif r == 0:
            self.unknowns += 1
            res = "unknown"
        z3.Z3_solver_pop(self.c, self.s.solver, 1)
        self.declared.difference_update(new)
        dt = time.perf_counter() - t
        self.time += dt
        self.slow = max(self.slow, dt)
        self.queries += 1
        return res


class Result:
    NUM = ("paths", "pruned", "branches", "obligations", "trivial", "discharged", "queries",
           "unknowns", "solver_s", "concretised", "pins_dropped", "divergences", "bounded")

    def __init__(self):
        for f in self.NUM:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.candidates = []  # (inputs, message, traceback | None, earlier inputs)
        self.covers = {}
        self.samples = []
        self.complete = True
        self.maxdepth = 0
        self.slowest_query_s = 0.0

    def merge(self, o):
        for f in self.NUM:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        self.slowest_query_s = max(self.slowest_query_s, o.slowest_query_s)
        self.complete = self.complete and o.complete
        self.candidates.extend(o.candidates)
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples.extend(o.samples[: 6 - len(self.samples)])


PIN_CAP = 3  # further values tried per concretisation site on a path


class Explorer:
    """Explores the paths of one harness below a set of work items.

    A work item is (inputs, bound, prefix_hash): the alternatives of the first
    `bound` decisions of that run are handled elsewhere.
    """

    def __init__(self, harness):
        self.harness = harness
        self.solve = Solve()
        self.past = []  # inputs of the first and the latest runs in this process

    def run_once(self, inputs):
        global _CTX
        run = Ctx(inputs)
        _CTX = run
        err = None
        ended = None
        try:
            self.harness(run)
        except PathEnd as e:
            ended = str(e)
        except Exception as e:  # noqa
            import traceback

            err = (type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
        if len(self.past) >= 24:
            del self.past[8]
        self.past.append(dict(run.used))
        # _CTX stays set: lazily evaluated expressions still need the variables
        return run, ended, err

    def explore(self, items, deadline, max_paths):
        res = Result()
        stack = list(items)
        while stack:
            if time.monotonic() > deadline or res.paths + res.pruned >= max_paths:
                break
            if res.candidates:
                break
            inputs, bound, ph = stack.pop()
            self.step(inputs, bound, ph, stack, res)
        return stack, res

    def step(self, inputs, bound, ph, stack, res):
        run, ended, err = self.run_once(inputs)
        res.concretised += run.concretised
        trace = run.trace
        if ph is not None:
            h = hash(tuple((_stable(k), t) for k, t, _ in trace[:bound]))
            if len(trace) < bound or h != ph:
                res.divergences += 1
        sv = self.solve
        q0, t0, u0 = sv.queries, sv.time, sv.unknowns
        pre = [(k if t else _negkey(k)) for k, t, _ in trace]
        sv.begin(pre[:bound])
        hashes = [(_stable(k), t) for k, t, _ in trace]
        children = []
        for i in range(bound, len(trace)):
            key, taken, kind = trace[i]
            if not (kind == "assume" and taken):
                m = sv.query(_negkey(pre[i]), run)
                if m == "unknown":
                    res.complete = False
                elif m is not None:
                    if kind == "pin":
                        # enumerated values of a value that C code needed
                        n = inputs.get("$pins", 0)
                        if n >= PIN_CAP:
                            res.pins_dropped += 1
                            res.complete = False
                        else:
                            m["$pins"] = n + 1
                            children.append((m, i, None))
                    else:
                        if "$pins" in inputs:
                            m["$pins"] = inputs["$pins"]
                        h = hash(tuple(hashes[:i]) + ((hashes[i][0], not taken),))
                        children.append((m, i + 1, h))
            sv.add(pre[i])
        stack.extend(children)
        res.branches += len(trace)
        res.maxdepth = max(res.maxdepth, len(trace))
        if ended == "assumption":
            res.pruned += 1
        elif err is not None:
            res.paths += 1
            res.candidates.append((dict(run.used), f"unexpected {err[0]}: {err[1]}", err[2], self.past[:-1]))
        else:
            res.paths += 1
            if ended is not None:
                res.bounded += 1
            for c in run.covers:
                res.covers[c] = res.covers.get(c, 0) + 1
            res.trivial += run.n_trivial
            res.obligations += run.n_trivial + len(run.checks)
            res.discharged += run.n_trivial
            self.discharge(run, sv, res)
            if len(res.samples) < 2:
                res.samples.append({"inputs": dict(run.used), "decisions": len(trace),
                                    "obligations": len(run.checks) + run.n_trivial})
        res.queries += sv.queries - q0
        res.solver_s += sv.time - t0
        res.unknowns += sv.unknowns - u0
        res.slowest_query_s = max(res.slowest_query_s, sv.slow)

    def discharge(self, run, sv, res):
        checks = run.checks
        if not checks:
            return
        seen = {}
        for key, msg in checks:
            seen.setdefault(key, msg)
        rest = []
        for key, msg in seen.items():
            if run.decided(key) is True:
                continue
            if not _evalkey(key, run.vals):
                res.candidates.append((dict(run.used), msg, None, self.past[:-1]))
                return
            rest.append((key, msg))
        if rest:
            if len(rest) == 1:
                bad = _negkey(rest[0][0])
            else:
                bad = ("or", tuple(_negkey(k) for k, _ in rest))
            m = sv.query(bad, run)
            if m == "unknown":
                res.complete = False
                return
            if m is not None:
                # which one?
                run2, _, _ = self.run_once(m)
                msg = rest[0][1]
                for key, ms in run2.checks:
                    if not _evalkey(key, run2.vals):
                        msg = ms
                        break
                res.candidates.append((dict(run2.used), msg, None, self.past[:-1]))
                return
        res.discharged += len(checks)
