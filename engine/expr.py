"""Exact real-arithmetic symbolic values.

A real value is either a Fraction (concrete) or a P (Laurent polynomial over atoms,
kept expanded while small).  Booleans are 0/1 or B nodes.  Everything is hash-consed.
"""
from fractions import Fraction
import math

F0 = Fraction(0)
F1 = Fraction(1)
EXPAND_LIMIT = 600


class Atom:
    __slots__ = ("kind", "data", "id", "name")
    table = {}
    all = []

    def __repr__(self):
        return self.name or f"{self.kind}#{self.id}"


def mkatom(kind, data, name=None):
    key = (kind, data)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.data = data
        a.id = len(Atom.all)
        a.name = name
        Atom.table[key] = a
        Atom.all.append(a)
    return a


class P:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.t.items())
        return k

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.key())
        return h

    def __eq__(self, o):
        return self is o or (type(o) is P and self.t == o.t)

    def __repr__(self):
        return pstr(self)


def pstr(p, maxn=12):
    if not isinstance(p, P):
        return str(p)
    out = []
    for i, (m, c) in enumerate(p.t.items()):
        if i >= maxn:
            out.append(f"...({len(p.t)} terms)")
            break
        s = "*".join((repr(Atom.all[a]) + (f"^{e}" if e != 1 else "")) for a, e in m)
        out.append(f"{c}*{s}" if s else str(c))
    return " + ".join(out)


def norm(t):
    """dict -> Fraction | P"""
    if not t:
        return F0
    if len(t) == 1:
        c = t.get(())
        if c is not None:
            return c
    return P(t)


def terms(v):
    if type(v) is P:
        return v.t
    if v == 0:
        return {}
    return {(): v}


def atomP(a):
    return P({((a.id, 1),): F1})


def special(x):
    return type(x) is float


def tofloat(x):
    if type(x) is float:
        return x
    if type(x) is P:
        return math.nan
    try:
        return float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def add(a, b):
    ta = type(a)
    tb = type(b)
    if ta is Fraction and tb is Fraction:
        return a + b
    if ta is float or tb is float:
        return fromfloat(tofloat(a) + tofloat(b))
    if ta is not P:
        a, b = b, a
        ta, tb = tb, ta
    if tb is not P:
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), F0) + b
        if c == 0:
            del t[()]
        else:
            t[()] = c
        return norm(t)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        d = t.get(m)
        if d is None:
            t[m] = c
        else:
            d = d + c
            if d == 0:
                del t[m]
            else:
                t[m] = d
    return norm(t)


def neg(a):
    if type(a) is P:
        return P({m: -c for m, c in a.t.items()})
    return -a


def sub(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return a - b
    return add(a, neg(b))


_mm = {}


def mulmono(m, n):
    if not m:
        return n
    if not n:
        return m
    k = (m, n)
    r = _mm.get(k)
    if r is not None:
        return r
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) + e
        if x == 0:
            del d[a]
        else:
            d[a] = x
    r = tuple(sorted(d.items()))
    _mm[k] = r
    return r


def sumatom(p):
    """wrap a multi-term polynomial as an atom; returns (coeff, atom) with canonical scaling"""
    lead = min(p.t.items(), key=lambda kv: kv[0])[1]
    if lead != 1:
        p = P({m: c / lead for m, c in p.t.items()})
    return lead, mkatom("sum", p)


_root = {}


def rootof(aid):
    """(q, base, p, canonical exponent in [0,q)) when the atom is base^(p/q), base >= 0; None otherwise"""
    r = _root.get(aid, 0)
    if r != 0:
        return r
    at = Atom.all[aid]
    r = None
    if at.kind == "sqrt":
        r = (2, at.data, 1, False)
    elif at.kind == "uf" and at.data[0] == "pow" and type(at.data[2]) is Fraction and at.data[2].denominator <= 12 and not sgn(at.data[1]) & (NEG | ZERO):
        r = (at.data[2].denominator, at.data[1], at.data[2].numerator, type(at.data[1]) is not P or len(at.data[1].t) == 1)
    if r is None and at.kind == "uf" and at.data[0] == "pow":
        return r
    _root[aid] = r
    return r


def simp_sqrt(t):
    """reduce root atoms:  s^2 -> radicand for sqrt, (x^(p/q))^q -> x^p"""
    todo = None
    for m in t:
        for a, e in m:
            if e >= 2 or e < 0:
                ro = rootof(a)
                if ro is not None and (abs(e) >= ro[0] or e < 0 and ro[3]):
                    todo = True
                    break
        if todo:
            break
    if not todo:
        return t
    res = F0
    for m, c in t.items():
        v = c
        rest = []
        for a, e in m:
            ro = rootof(a) if e >= 2 or e < 0 else None
            if ro is not None and (abs(e) >= ro[0] or e < 0 and ro[3]):
                q = ro[0]
                n, r = divmod(e, q) if e > 0 or ro[3] else (-((-e) // q), -((-e) % q))
                v = mul(v, powi(ro[1], n * ro[2]))
                if r:
                    rest.append((a, r))
            else:
                rest.append((a, e))
        if rest:
            v = mul(v, P({tuple(rest): F1}))
        res = add(res, v)
    return terms(res)


def mul(a, b):
    ta = type(a)
    tb = type(b)
    if ta is Fraction and tb is Fraction:
        return a * b
    if ta is float or tb is float:
        return fromfloat(tofloat(a) * tofloat(b))
    if ta is not P:
        a, b = b, a
        ta, tb = tb, ta
    if tb is not P:
        if b == 0:
            return F0
        if b == 1:
            return a
        return P({m: c * b for m, c in a.t.items()})
    la, lb = len(a.t), len(b.t)
    if la * lb > EXPAND_LIMIT and la > 1 and lb > 1:
        # keep opaque
        ca, aa = sumatom(a)
        if a == b:
            return P({((aa.id, 2),): ca * ca})
        cb, ab = sumatom(b)
        return P({mulmono(((aa.id, 1),), ((ab.id, 1),)): ca * cb})
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mulmono(m, n)
            x = t.get(k)
            if x is None:
                t[k] = c * d
            else:
                x = x + c * d
                if x == 0:
                    del t[k]
                else:
                    t[k] = x
    return norm(simp_sqrt(t))


DIVHOOK = [None]


def inv(b):
    if type(b) is Fraction:
        return F1 / b
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return P({tuple((a, -e) for a, e in m): F1 / c})
    c, a = sumatom(b)
    return P({((a.id, -1),): F1 / c})


def div(a, b):
    ta = type(a)
    tb = type(b)
    if tb is Fraction:
        if b == 0:
            if ta is Fraction:
                if a == 0:
                    return math.nan
                return math.inf if a > 0 else -math.inf
            if ta is float:
                return math.nan
            h = DIVHOOK[0]
            if h:
                h(b)
            return math.nan
        if ta is Fraction:
            return a / b
        if ta is P:
            ib = 1 / b
            return P({m: c * ib for m, c in a.t.items()})
    if ta is float or tb is float:
        x, y = tofloat(a), tofloat(b)
        try:
            return fromfloat(x / y)
        except ZeroDivisionError:
            return math.nan
    h = DIVHOOK[0]
    if h:
        h(b)
    if ta is Fraction and a == 0:
        return F0
    if ta is P and a.t == b.t:
        return F1
    return mul(a, inv(b))


def fromfloat(x):
    if x != x or x in (math.inf, -math.inf):
        return x
    return Fraction(x)


def powi(a, n):
    if n == 0:
        return F1
    if n < 0:
        return div(F1, powi(a, -n))
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("op", "args", "id")
    table = {}
    all = []

    def __repr__(self):
        return bstr(self)


def mkB(op, args):
    k = (op, args)
    b = B.table.get(k)
    if b is None:
        b = B()
        b.op = op
        b.args = args
        b.id = len(B.all)
        B.all.append(b)
        B.table[k] = b
    return b


def bstr(b):
    if type(b) is not B:
        return str(b)
    if b.op in ("lt", "le", "eq"):
        return f"({pstr(b.args[0])} {dict(lt='<',le='<=',eq='==')[b.op]} 0)"
    return f"{b.op}({', '.join(bstr(x) for x in b.args)})"


def b_not(b):
    if type(b) is not B:
        return 0 if b else 1
    if b.op == "not":
        return b.args[0]
    if b.op == "lt":
        return cmp0("le", neg(b.args[0]))
    if b.op == "le":
        return cmp0("lt", neg(b.args[0]))
    return mkB("not", (b,))


def b_and(a, b):
    if type(a) is not B:
        return b if a else 0
    if type(b) is not B:
        return a if b else 0
    if a is b:
        return a
    return mkB("and", (a, b))


def b_or(a, b):
    if type(a) is not B:
        return 1 if a else b
    if type(b) is not B:
        return 1 if b else a
    if a is b:
        return a
    return mkB("or", (a, b))


_ivl = {}
INF = math.inf


def ivl_atom(aid):
    """outward-rounded float interval of an atom, from the declared input ranges"""
    r = _ivl.get(aid)
    if r is not None:
        return r
    a = Atom.all[aid]
    k = a.kind
    r = (-INF, INF)
    try:
        if k == "var":
            lo, hi = BOUNDS.get(a.data, (None, None))
            return (-INF if lo is None else float(lo), INF if hi is None else float(hi))
        if k == "sum":
            r = ivl(a.data)
        elif k == "ite":
            x, y = ivl(a.data[1]), ivl(a.data[2])
            r = (min(x[0], y[0]), max(x[1], y[1]))
        elif k == "sqrt":
            x = ivl(a.data)
            r = (math.sqrt(max(x[0], 0.0)) * (1 - 1e-12), math.sqrt(max(x[1], 0.0)) * (1 + 1e-12))
        elif k == "uf":
            n = a.data[0]
            if n == "exp":
                x = ivl(a.data[1])
                r = (math.exp(x[0]) * (1 - 1e-9) if x[0] < 700 else 0.0, math.exp(x[1]) * (1 + 1e-9) if x[1] < 700 else INF)
                if x[0] == -INF:
                    r = (0.0, r[1])
            elif n == "log":
                x = ivl(a.data[1])
                r = (math.log(x[0]) if x[0] > 0 else -INF, math.log(x[1]) if 0 < x[1] < INF else INF)
                r = (r[0] - 1e-12 * abs(r[0]) if r[0] > -INF else r[0], r[1] + 1e-12 * abs(r[1]) if r[1] < INF else INF)
            elif n == "erfc":
                r = (0.0, 2.0)
            elif n == "pow" and type(a.data[2]) is Fraction:
                x = ivl(a.data[1])
                if x[0] > 0:
                    e = float(a.data[2])
                    v = [y ** e if y != INF else (INF if e > 0 else 0.0) for y in x]
                    r = (min(v) * (1 - 1e-9), max(v) * (1 + 1e-9))
            elif n in ("sin", "cos"):
                r = (-1.0, 1.0)
                x = ivl(a.data[1])
                if n == "sin" and -1.57 <= x[0] and x[1] <= 1.57:
                    r = (math.sin(x[0]), math.sin(x[1]))
                elif n == "sin" and 0 <= x[0] and x[1] <= 3.14:
                    r = (min(math.sin(x[0]), math.sin(x[1])), 1.0)
                elif n == "cos" and 0 <= x[0] and x[1] <= 3.14:
                    r = (math.cos(x[1]), math.cos(x[0]))
                elif n == "cos" and -1.57 <= x[0] and x[1] <= 1.57:
                    r = (min(math.cos(x[0]), math.cos(x[1])), 1.0)
                r = (r[0] - 1e-12 * abs(r[0]), r[1] + 1e-12 * abs(r[1]))
    except OverflowError:
        r = (-INF, INF)
    _ivl[aid] = r
    return r


def imul(x, y):
    v = [0.0 if p == 0 or q == 0 else p * q for p in x for q in y]
    return (min(v), max(v))


def ivl(v):
    if type(v) is Fraction or type(v) is int:
        f = float(v)
        return (f, f)
    if type(v) is float:
        return (v, v)
    lo = hi = 0.0
    for m, c in v.t.items():
        c = float(c)
        t = (c, c)
        for a, e in m:
            x = ivl_atom(a)
            if e < 0:
                if x[0] <= 0 <= x[1]:
                    return (-INF, INF)
                x = (1.0 / x[1] if x[1] not in (INF, -INF) else 0.0, 1.0 / x[0] if x[0] not in (INF, -INF) else 0.0)
            y = x
            for _ in range(abs(e) - 1):
                y = imul(y, x)
            if e % 2 == 0 and y[0] < 0:
                y = (0.0, y[1])
            t = imul(t, y)
        s = 1e-12
        lo += t[0] - abs(t[0]) * s if t[0] != -INF else -INF
        hi += t[1] + abs(t[1]) * s if t[1] != INF else INF
        if lo == -INF and hi == INF:
            return (lo, hi)
    if math.isnan(lo) or math.isnan(hi):
        return (-INF, INF)
    return (lo, hi)


def ivl_dec(op, d):
    if len(d.t) > 12:
        return None
    try:
        lo, hi = ivl(d)
    except (OverflowError, ZeroDivisionError):
        return None
    m = 1e-9 * sum(abs(float(c)) for m_, c in d.t.items() if not m_)
    if hi < -m:
        return 0 if op == "eq" else 1
    if lo > m:
        return 0
    return None


def cmp0(op, d):
    """d op 0"""
    if type(d) is P:
        r = ivl_dec(op, d)
        if r is not None:
            return r
    if type(d) is Fraction:
        return int(d < 0 if op == "lt" else d <= 0 if op == "le" else d == 0)
    if type(d) is float:
        return int(d < 0 if op == "lt" else d <= 0 if op == "le" else d == 0)
    # canonical positive scaling
    lead = abs(min(d.t.items(), key=lambda kv: kv[0])[1])
    if op == "eq":
        lead = min(d.t.items(), key=lambda kv: kv[0])[1]
    if lead != 1:
        d = P({m: c / lead for m, c in d.t.items()})
    return mkB(op, (d,))


def lt(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return int(a < b)
    if type(a) is float or type(b) is float:
        return int(fcmpf(a, b, "lt"))
    return cmp0("lt", sub(a, b))


def le(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return int(a <= b)
    if type(a) is float or type(b) is float:
        return int(fcmpf(a, b, "le"))
    return cmp0("le", sub(a, b))


def eq(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return int(a == b)
    if type(a) is float or type(b) is float:
        return int(fcmpf(a, b, "eq"))
    return cmp0("eq", sub(a, b))


def fcmpf(a, b, op):
    # at least one is inf/nan.  A symbolic real is finite.
    def cv(x):
        return 0.0 if type(x) is P else tofloat(x)
    x, y = cv(a), cv(b)
    return x < y if op == "lt" else x <= y if op == "le" else x == y


def ite(c, a, b):
    if type(c) is not B:
        return a if c else b
    if type(a) is type(b) and a == b:
        return a
    if type(a) is float or type(b) is float:
        raise ValueError("ite over inf/nan")
    return atomP(mkatom("ite", (c, a, b)))


def var(name):
    return atomP(mkatom("var", name, name))


def uf(name, args):
    return atomP(mkatom("uf", (name,) + tuple(args), None))


def sqrt_(a):
    if type(a) is float:
        return math.sqrt(a) if a >= 0 else math.nan
    if type(a) is Fraction:
        if a < 0:
            return math.nan
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
        return atomP(mkatom("sqrt", a))
    return atomP(mkatom("sqrt", a))


# ---------------------------------------------------------------- float evaluation (for guidance only)
class EvalErr(Exception):
    pass


def feval(v, env, cache=None):
    if type(v) is not P:
        return float(v)
    if cache is None:
        cache = {}
    s = 0.0
    for m, c in v.t.items():
        x = float(c)
        for a, e in m:
            y = aeval(a, env, cache)
            try:
                x *= y ** e
            except (ZeroDivisionError, OverflowError):
                raise EvalErr()
        s += x
    return s


def aeval(aid, env, cache):
    if aid in cache:
        return cache[aid]
    a = Atom.all[aid]
    k = a.kind
    if k == "var":
        if a.data not in env:
            raise EvalErr(a.data)
        r = env[a.data]
    elif k == "sum":
        r = feval(a.data, env, cache)
    elif k == "ite":
        c, x, y = a.data
        r = feval(x if beval(c, env, cache) else y, env, cache)
    elif k == "sqrt":
        x = feval(a.data, env, cache)
        if x < 0:
            raise EvalErr()
        r = math.sqrt(x)
    else:
        name = a.data[0]
        args = [feval(x, env, cache) for x in a.data[1:]]
        try:
            r = float(getattr(math, name)(*args))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise EvalErr()
        except AttributeError:
            raise EvalErr(name)
    cache[aid] = r
    return r


def beval(b, env, cache=None):
    if type(b) is not B:
        return bool(b)
    if cache is None:
        cache = {}
    if b.op == "not":
        return not beval(b.args[0], env, cache)
    if b.op == "and":
        return beval(b.args[0], env, cache) and beval(b.args[1], env, cache)
    if b.op == "or":
        return beval(b.args[0], env, cache) or beval(b.args[1], env, cache)
    x = feval(b.args[0], env, cache)
    return x < 0 if b.op == "lt" else x <= 0 if b.op == "le" else x == 0


# ---------------------------------------------------------------- structure helpers
BOUNDS = {}          # var name -> (lo, hi) (either may be None)
_sgn = {}
NEG, ZERO, POS = 1, 2, 4


def sgn_atom(aid):
    r = _sgn.get(aid)
    if r is not None:
        return r
    a = Atom.all[aid]
    k = a.kind
    r = 7
    if k == "var":
        lo, hi = BOUNDS.get(a.data, (None, None))
        if lo is not None:
            if lo > 0:
                r = POS
            elif lo == 0:
                r = ZERO | POS
        if hi is not None:
            if hi < 0:
                r &= NEG
            elif hi == 0:
                r &= NEG | ZERO
    elif k == "sum":
        r = sgn(a.data)
    elif k == "ite":
        r = sgn(a.data[1]) | sgn(a.data[2])
    elif k == "sqrt":
        s = sgn(a.data)
        r = POS if not s & (ZERO | NEG) else ZERO | POS
    elif k == "uf":
        n = a.data[0]
        if n == "exp":
            r = POS
        elif n == "pow" and not sgn(a.data[1]) & (NEG | ZERO):
            r = POS
        elif n in ("erfc",):
            r = POS
        elif n in ("sin", "cos"):
            x = ivl_atom(aid)
            if x[0] >= 0:
                r = POS if x[0] > 0 else ZERO | POS
            elif x[1] <= 0:
                r = NEG if x[1] < 0 else ZERO | NEG
    if k != "var":
        _sgn[aid] = r
    return r


def sgn(v):
    """possible signs (bit set) of a value; sound over-approximation"""
    if type(v) is Fraction:
        return NEG if v < 0 else POS if v > 0 else ZERO
    if type(v) is float:
        return 7
    tot = 0
    for m, c in v.t.items():
        s = NEG if c < 0 else POS
        for a, e in m:
            x = sgn_atom(a)
            if e < 0:
                x &= ~ZERO
            if e % 2 == 0:
                x = (POS if x & (POS | NEG) else 0) | (x & ZERO)
            y = x & ZERO
            if x & POS:
                y |= s & (POS | NEG) if True else 0
            if x & NEG:
                y |= (POS if s & NEG else 0) | (NEG if s & POS else 0)
            if s & ZERO:
                y |= ZERO
            s = y
        # sum of sign sets
        if tot == 0:
            tot = s
        else:
            u = tot | s
            if (u & POS) and (u & NEG):
                return 7
            if (tot & ZERO) and (s & ZERO):
                tot = u
            else:
                tot = u & ~ZERO
    return tot


def quick(b):
    """decide a comparison by sign analysis; returns 0/1/None"""
    if type(b) is int:
        return b
    if b.op in ("lt", "le", "eq"):
        s = sgn(b.args[0])
        if b.op == "lt":
            if not s & NEG:
                return 0
            if s == NEG:
                return 1
        elif b.op == "le":
            if not s & POS:
                return 1
            if s == POS:
                return 0
        else:
            if s == ZERO:
                return 1
            if not s & ZERO:
                return 0
        return None
    if b.op == "not":
        q = quick(b.args[0])
        return None if q is None else 1 - q
    x, y = quick(b.args[0]), quick(b.args[1])
    if b.op == "and":
        if x == 0 or y == 0:
            return 0
        if x == 1 and y == 1:
            return 1
    else:
        if x == 1 or y == 1:
            return 1
        if x == 0 and y == 0:
            return 0
    return None


_vd = {}


def direct_atoms(v):
    s = set()
    if type(v) is P:
        for m in v.t:
            for a, e in m:
                s.add(a)
    return s


_aclose = {}


def atom_closure(aid):
    """all atoms needed to define aid (including itself)"""
    r = _aclose.get(aid)
    if r is None:
        a = Atom.all[aid]
        r = {aid}
        if a.kind == "sum" or a.kind == "sqrt":
            for x in direct_atoms(a.data):
                r |= atom_closure(x)
        elif a.kind == "ite":
            r |= b_closure(a.data[0])
            for v in a.data[1:]:
                for x in direct_atoms(v):
                    r |= atom_closure(x)
        elif a.kind == "uf":
            for v in a.data[1:]:
                for x in direct_atoms(v):
                    r |= atom_closure(x)
        r = _aclose[aid] = frozenset(r)
    return r


_bclose = {}


def b_closure(b):
    if type(b) is not B:
        return frozenset()
    r = _bclose.get(b.id)
    if r is None:
        r = set()
        for x in b.args:
            if type(x) is B:
                r |= b_closure(x)
            else:
                for a in direct_atoms(x):
                    r |= atom_closure(a)
        r = _bclose[b.id] = frozenset(r)
    return r


def v_closure(v):
    r = set()
    for a in direct_atoms(v):
        r |= atom_closure(a)
    return r
