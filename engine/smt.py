"""Translation of expr values to z3 (division-free) and the query layer."""
import time, math, os
from fractions import Fraction
import z3
import expr
from expr import *

z3.set_param("memory_max_size", 8000)
z3.set_param("smt.random_seed", 1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.bykind = {}
        self.maxq = 0.0


STATS = Stats()


def q(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}" if fr.denominator != 1 else str(fr.numerator))


_atom = {}       # aid -> z3 term
_adefs = {}      # aid -> [z3 constraints]
_polys = {}
_bools = {}
_pair = {}


def za(aid):
    r = _atom.get(aid)
    if r is not None:
        return r
    at = Atom.all[aid]
    k = at.kind
    D = _adefs[aid] = []
    if k == "var":
        r = z3.Real(at.data)
        lo, hi = BOUNDS.get(at.data, (None, None))
        if lo is not None:
            D.append(r >= q(lo))
        if hi is not None:
            D.append(r <= q(hi))
    elif k == "sum":
        n, d = nd(at.data)
        if d is None:
            r = n
        else:
            r = z3.Real(f"sum!{aid}")
            D.append(r * d == n)
    elif k == "ite":
        c, x, y = at.data
        r = _atom[aid] = z3.Real(f"ite!{aid}")
        cz = zb(c)
        for cond, v in ((cz, x), (z3.Not(cz), y)):
            n, d = nd(v)
            D.append(z3.Implies(cond, (r == n) if d is None else (r * d == n)))
    elif k == "sqrt":
        r = _atom[aid] = z3.Real(f"sqrt!{aid}")
        n, d = nd(at.data)
        D.append(r >= 0)
        D.append((r * r == n) if d is None else (r * r * d == n))
    else:
        name = at.data[0]
        r = _atom[aid] = z3.Real(f"{name}!{aid}")
        ufax(name, r, at.data[1:], D)
        lo, hi = ivl_atom(at.id)
        if lo > -1e300:
            D.append(r >= q(Fraction(lo)))
        if hi < 1e300:
            D.append(r <= q(Fraction(hi)))
    _atom[aid] = r
    return r


def sgnterm(v):
    n, d = nd(v)
    return n if d is None else n * d


def ufax(name, r, args, D):
    if all(type(x) is Fraction for x in args):
        try:
            f = float(getattr(math, name)(*[float(x) for x in args]))
            e = abs(f) * 1e-13
            lo, hi = Fraction(f) - Fraction(e), Fraction(f) + Fraction(e)
            D.append(r >= q(lo))
            D.append(r <= q(hi))
            return
        except (ValueError, OverflowError, AttributeError):
            pass
    if name == "exp":
        x = sgnterm(args[0])
        D.append(r > 0)
        D.append(z3.Implies(x > 0, r > 1))
        D.append(z3.Implies(x < 0, r < 1))
        D.append(z3.Implies(x == 0, r == 1))
        n, d = nd(args[0])
        if d is None:
            D.append(r >= 1 + n)
        dd = q(Fraction(1)) if d is None else d
        for lim, big in ((200, Fraction(10) ** 87), (16, Fraction(10) ** 7), (2, Fraction(8))):
            D.append(z3.Implies(z3.And(dd > 0, n <= lim * dd), r < q(big)))
            D.append(z3.Implies(z3.And(dd > 0, n >= -lim * dd), r * q(big) > 1))
    elif name == "pow":
        x = sgnterm(args[0])
        D.append(z3.Implies(x > 0, r > 0))
        if type(args[1]) is Fraction:
            e = args[1]
            n, d = nd(args[0])
            one = d if d is not None else q(Fraction(1))
            if d is None:
                if e > 0:
                    D.append(z3.Implies(n == 0, r == 0))
                    D.append(z3.Implies(n > 1, r > 1))
                    D.append(z3.Implies(z3.And(n > 0, n < 1), r < 1))
                elif e < 0:
                    D.append(z3.Implies(n > 1, r < 1))
                    D.append(z3.Implies(z3.And(n > 0, n < 1), r > 1))
                D.append(z3.Implies(n == 1, r == 1))
                if e.denominator <= 4 and 0 < e.numerator <= 3:
                    l, m = r, n
                    for _ in range(e.denominator - 1):
                        l = l * r
                    for _ in range(e.numerator - 1):
                        m = m * n
                    D.append(z3.Implies(n > 0, l == m))
                if 0 < e < 1:
                    D.append(z3.Implies(n > 1, r < n))
                    D.append(z3.Implies(z3.And(n > 0, n < 1), r > n))
    elif name in ("sin", "cos"):
        D.append(r >= -1)
        D.append(r <= 1)
        x = sgnterm(args[0])
        D.append(z3.Implies(x == 0, r == (0 if name == "sin" else 1)))
    elif name == "atan":
        x = sgnterm(args[0])
        D.append(z3.And(r > q(Fraction(-1570796327, 10**9)), r < q(Fraction(1570796327, 10**9))))
        D.append(z3.Implies(x > 0, r > 0))
        D.append(z3.Implies(x < 0, r < 0))
        D.append(z3.Implies(x == 0, r == 0))
    elif name == "erfc":
        D.append(z3.And(r > 0, r < 2))
    elif name == "acos":
        D.append(z3.And(r >= 0, r < q(Fraction(314159266, 10**8))))


MONO = ("exp", "log", "log10", "atan", "cbrt", "tanh", "erf", "tan_")


def pair_axioms(ids):
    """congruence, monotonicity, sin^2+cos^2 among uf atoms of one query"""
    out = []
    by = {}
    for i in ids:
        a = Atom.all[i]
        if a.kind == "uf":
            by.setdefault(a.data[0], []).append(i)
    for name, l in by.items():
        l.sort()
        if len(l) > 14:
            l = l[:14]
        for x in range(len(l)):
            for y in range(x):
                k = (l[x], l[y])
                ax = _pair.get(k)
                if ax is None:
                    A, C = Atom.all[l[x]].data, Atom.all[l[y]].data
                    ax = []
                    if len(A) == len(C) and not all(type(v) is Fraction for v in A[1:] + C[1:]):
                        r, pr = za(l[x]), za(l[y])
                        ds = [sub(u, v) for u, v in zip(A[1:], C[1:])]
                        ax.append(z3.Implies(z3.And(*[sgnterm(d) == 0 for d in ds]), r == pr))
                        if name in MONO:
                            s = sgnterm(ds[0])
                            ax.append(z3.Implies(s > 0, r > pr))
                            ax.append(z3.Implies(s < 0, r < pr))
                        if name == "pow" and type(ds[1]) is Fraction and ds[1] == 0 and type(A[2]) is Fraction:
                            s = sgnterm(ds[0])
                            posi = z3.And(sgnterm(A[1]) > 0, sgnterm(C[1]) > 0)
                            if A[2] > 0:
                                ax.append(z3.Implies(z3.And(posi, s > 0), r > pr))
                                ax.append(z3.Implies(z3.And(posi, s < 0), r < pr))
                            elif A[2] < 0:
                                ax.append(z3.Implies(z3.And(posi, s > 0), r < pr))
                                ax.append(z3.Implies(z3.And(posi, s < 0), r > pr))
                    _pair[k] = ax
                out += ax
    for i in by.get("sin", []):
        oa = Atom.table.get(("uf", ("cos",) + tuple(Atom.all[i].data[1:])))
        if oa is not None:
            x, y = za(i), za(oa.id)
            out.append(x * x + y * y == 1)
            out += [d for d in _adefs[oa.id]]
    return out


def nd(v):
    """numerator, denominator (None if 1) as z3 terms"""
    if type(v) is not P:
        if type(v) is float:
            raise ValueError("inf/nan in query")
        return q(Fraction(v)), None
    k = v.key()
    r = _polys.get(k)
    if r is not None:
        return r
    den = {}
    for m in v.t:
        for a, e in m:
            if e < 0 and -e > den.get(a, 0):
                den[a] = -e
    ts = []
    for m, c in v.t.items():
        d = dict(den)
        fs = []
        for a, e in m:
            d[a] = d.get(a, 0) + e
        for a, e in d.items():
            if e > 0:
                fs.extend([za(a)] * e)
        if c != 1 or not fs:
            fs = [q(c)] + fs
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    n = ts[0] if len(ts) == 1 else z3.Sum(*ts)
    if den:
        fs = []
        for a, e in den.items():
            fs.extend([za(a)] * e)
        d = fs[0] if len(fs) == 1 else z3.Product(*fs)
    else:
        d = None
    _polys[k] = (n, d)
    return n, d


def den_atoms(v, out):
    if type(v) is P:
        for m in v.t:
            for a, e in m:
                if e < 0:
                    out.add(a)


def zb(b):
    if type(b) is not B:
        return z3.BoolVal(bool(b))
    r = _bools.get(b.id)
    if r is not None:
        return r
    if b.op == "not":
        r = z3.Not(zb(b.args[0]))
    elif b.op == "and":
        r = z3.And(zb(b.args[0]), zb(b.args[1]))
    elif b.op == "or":
        r = z3.Or(zb(b.args[0]), zb(b.args[1]))
    else:
        v = b.args[0]
        n, d = nd(v)
        if b.op == "eq":
            r = n == 0
        else:
            if d is not None:
                den = {}
                for m in v.t:
                    for a, e in m:
                        if e < 0 and -e > den.get(a, 0):
                            den[a] = -e
                for a, e in den.items():
                    s = sgn_atom(a) & ~ZERO
                    if e % 2:
                        if s == POS:
                            pass
                        elif s == NEG:
                            n = -n
                        else:
                            n = n * za(a)
            r = (n < 0) if b.op == "lt" else (n <= 0)
    _bools[b.id] = r
    return r


def b_dens(b, out):
    if type(b) is B:
        for x in b.args:
            if type(x) is B:
                b_dens(x, out)
            else:
                den_atoms(x, out)


def z3num(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def slice_conds(pc, seed_atoms):
    """conditions of pc connected to seed_atoms through shared variables"""
    seen = set(a for a in seed_atoms if Atom.all[a].kind == "var")
    rest = [(c, b_closure(c)) for c in pc if type(c) is B]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c, cl in rest:
            if any(a in seen for a in cl):
                out.append(c)
                for a in cl:
                    if Atom.all[a].kind == "var" and a not in seen:
                        seen.add(a)
                        changed = True
            else:
                nr.append((c, cl))
        rest = nr
    return out


def build(conds):
    """z3 constraint list for a set of B conditions"""
    ids = set()
    dens = set()
    for c in conds:
        ids |= b_closure(c)
        b_dens(c, dens)
    fs = [zb(c) for c in conds]
    for i in list(ids):
        a = Atom.all[i]
        if a.kind in ("sum", "sqrt"):
            den_atoms(a.data, dens)
        elif a.kind == "ite":
            b_dens(a.data[0], dens)
            den_atoms(a.data[1], dens)
            den_atoms(a.data[2], dens)
        elif a.kind == "uf":
            for v in a.data[1:]:
                den_atoms(v, dens)
    cs = []
    for i in sorted(ids | dens):
        za(i)
        cs += _adefs[i]
    for i in sorted(dens):
        if sgn_atom(i) & ZERO:
            cs.append(za(i) != 0)
    cs += pair_axioms(ids)
    return cs + fs, ids


NLSAT = ["simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat"]


def is_linear(conds, ids):
    for i in ids:
        if Atom.all[i].kind in ("sqrt", "uf"):
            return False
    def lin(v):
        if type(v) is P:
            for m in v.t:
                if len(m) > 1 or (m and m[0][1] != 1):
                    return False
        return True
    def bl(b):
        return all(bl(x) if type(x) is B else lin(x) for x in b.args) if type(b) is B else True
    for i in ids:
        a = Atom.all[i]
        if a.kind == "sum" and not lin(a.data):
            return False
        if a.kind == "ite" and not (bl(a.data[0]) and lin(a.data[1]) and lin(a.data[2])):
            return False
    return all(bl(c) for c in conds)


def solve(conds, timeout_ms, kind, nlsat=True):
    """conds: list of B / 0 / 1.  returns (verdict, model dict name->Fraction)"""
    t0 = time.time()
    res = None
    model = None
    cl = []
    for c in conds:
        if type(c) is B:
            cl.append(c)
        elif not c:
            res = "unsat"
    if res is None and not cl:
        res, model = "sat", {}
    if res is None:
        cs, ids = build(cl)
        lin = is_linear(cl, ids)
        strategies = ["default"] if lin or not nlsat else ["quick", "nlsat", "default"]
        for st in strategies:
            if st == "nlsat":
                s = z3.Then(*NLSAT).solver()
                s.set("timeout", timeout_ms)
            else:
                s = z3.Solver()
                s.set("timeout", min(timeout_ms, 800) if st == "quick" else timeout_ms)
            s.add(*cs)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                m = s.model()
                res = "sat"
                model = {}
                for aid in ids:
                    at = Atom.all[aid]
                    if at.kind == "var":
                        x = z3num(m, _atom[aid])
                        if x is not None:
                            model[at.data] = x
                break
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.maxq = max(STATS.maxq, dt)
    STATS.bykind[kind] = STATS.bykind.get(kind, 0) + 1
    if res is None:
        res = "unknown"
        STATS.unknown += 1
    elif res == "sat":
        STATS.sat += 1
    else:
        STATS.unsat += 1
    return res, model


def smt2(conds):
    cs, ids = build([c for c in conds if type(c) is B])
    s = z3.Solver()
    s.add(*cs)
    return s.to_smt2()


def identities(pairs, timeout_ms):
    """one query: is any of the (already normalised) equalities falsifiable?"""
    t0 = time.time()
    ors = []
    for x, y in pairs:
        n1, d1 = nd(x)
        n2, d2 = nd(y)
        l = n1 if d2 is None else n1 * d2
        r = n2 if d1 is None else n2 * d1
        ors.append(l != r)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(z3.Or(*ors))
    r = s.check()
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.maxq = max(STATS.maxq, dt)
    STATS.bykind["normal-form"] = STATS.bykind.get("normal-form", 0) + 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return str(r)
