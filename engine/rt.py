"""Symbolic machine: memory, libc models, forking, obligations."""
import math, struct, time, re, sys
from fractions import Fraction
import expr
from expr import *
import smt
from llir import *
import codegen

SH = 28
MID = 1 << 27


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Torn(int):
    """a byte of a symbolic number (a file or copy that is out of step): its value is not tracked, see replay"""


TORN = Torn(65)


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("base", "size", "alive", "zero", "addrs", "name", "kind", "tags")


class VFile:
    def __init__(self, name, cells):
        self.name = name
        self.cells = cells     # list of (tag, val)  (tag size in bytes: 'd'->8,'f'->4,int)
        self.pos = 0           # cell index
        self.bo = 0
        self.eof = False
        self.mode = "r"


def tsz(tag):
    return 8 if tag == "d" else 4 if tag == "f" else tag


class Machine:
    def __init__(self, mods, cfg):
        self.mods = mods
        self.cfg = cfg
        self.track = bool(cfg.get("omp"))
        self.gtab = {}
        for m in reversed(mods):
            for n, (internal, h, b) in m.funcs.items():
                if not internal:
                    self.gtab[n] = m
        self.gvars = {}
        for m in reversed(mods):
            for n, (internal, t, init) in m.globals.items():
                if not internal and init is not None:
                    self.gvars[n] = m
        self.fcache = {}
        self.addr_of = {}       # (mod idx or -1, name) -> address
        self.at_addr = {}       # id -> ('f', mod, name) | ('g', mod, name)
        self.nextgid = 1
        self.trail = []
        self.cur = 0
        self.executed = {}
        self.ns = {}
        self.resetpath()
        self.mkns()
        self.deadline = None
        self.stat = dict(paths=0, blocks=0, forks=0, checks=0, checks_norm=0, checks_solver=0, unknown=0, exits=0,
                         pruned=0, assume_div=0, div0=0, uninit=0, memerr=0)
        self.violations = []
        self.unknowns = []
        self.feas_to = cfg.get("feas_timeout", 2000)
        self.check_to = cfg.get("check_timeout", 20000)
        self.concrete = None
        self.mode_ite = True

    # ---------------------------------------------------------------- path state
    def resetpath(self):
        self.mem = getattr(self, "mem", {})
        self.mem.clear()
        self.objs = {}
        self.nextid = 1 << 20
        self.stack = []
        self.pc = []
        self.pcids = set()
        self.model = None
        self.names = {}
        self.fs = {}
        self.files = {}
        self.inputs = []         # [(name, value)]
        self.nblocks = 0
        self.checks_here = 0
        self.trace = []
        self.callstack = []
        self.flags = {}
        self.stdout = []
        self.depth = 0
        self.eqbatch = []

    # ---------------------------------------------------------------- addresses
    def gaddr(self, mod, name):
        if name in mod.funcs and mod.funcs[name][0]:
            key = (mod.idx, name)
        elif name in mod.globals and mod.globals[name][0]:
            key = (mod.idx, name)
        else:
            key = (-1, name)
        a = self.addr_of.get(key)
        if a is None:
            i = self.nextgid
            self.nextgid += 1
            a = (i << SH) + MID
            self.addr_of[key] = a
            if key[0] >= 0:
                self.at_addr[i] = ("f" if name in mod.funcs else "g", mod, name)
            elif name in self.gtab:
                self.at_addr[i] = ("f", self.gtab[name], name)
            elif name in self.gvars:
                self.at_addr[i] = ("g", self.gvars[name], name)
            elif name in mod.globals:
                self.at_addr[i] = ("g", mod, name)
            else:
                self.at_addr[i] = ("x", None, name)
        return a

    def getobj(self, a):
        i = a >> SH
        o = self.objs.get(i)
        if o is None and i in self.at_addr:
            k, m, n = self.at_addr[i]
            if k == "g":
                o = self.initglobal(i, m, n)
        return o

    def initglobal(self, i, m, n):
        internal, t, init = m.globals[n]
        o = Obj()
        o.base = (i << SH) + MID
        o.size = m.sizeof(t)
        o.alive = True
        o.zero = []
        o.addrs = []
        o.name = "@" + n
        o.kind = "global"
        o.tags = None
        self.objs[i] = o
        if init is None:
            h = self.externs.get(n)
            if h is None:
                o.zero.append((o.base, o.base + o.size))
            else:
                h(self, o)
        else:
            k = Toks(init)
            k.mod = m
            self.initval(m, k, t, o.base, o)
        return o

    externs = {}

    def initval(self, m, k, t, a, o):
        t = m.resolve(t)
        x = k.peek()
        if x == "zeroinitializer" or x in ("undef", "poison"):
            k.next()
            o.zero.append((a, a + m.sizeof(t)))
            return
        if type(t) is str:
            if t in ("double", "float"):
                self.st(a, "d" if t == "double" else "f", fconst(k.next()))
            else:
                self.st(a, m.sizeof(t), self.constexpr(m, k, t))
            return
        if t[0] == "a":
            if x[0] == "c" and x[1:2] == '"':
                k.next()
                for i, c in enumerate(cstr(x)):
                    self.st(a + i, 1, c if c < 128 else c - 256)
                return
            k.expect("[")
            s = m.sizeof(t[2])
            for i in range(t[1]):
                et = m.ty(k)
                self.initval(m, k, et, a + i * s, o)
                if k.peek() == ",":
                    k.next()
            k.expect("]")
            return
        packed = k.peek() == "<"
        if packed:
            k.next()
        k.expect("{")
        o.zero.append((a, a + m.sizeof(t)))
        for i in range(len(t[1])):
            fo, et = m.fieldoff(t, i)
            et2 = m.ty(k)
            self.initval(m, k, et2, a + fo, o)
            if k.peek() == ",":
                k.next()
        k.expect("}")

    def constexpr(self, m, k, t):
        x = k.next()
        if x in ("null", "false", "zeroinitializer", "undef", "poison"):
            return 0
        if x == "true":
            return 1
        if x[0] == "@":
            return self.gaddr(m, x[1:])
        if re.fullmatch(r"-?\d+", x):
            return int(x)
        if x == "getelementptr":
            while k.peek() in codegen.FLAGS or k.peek() == "inrange":
                if k.next() == "inrange":
                    while k.next() != ")":
                        pass
            k.expect("(")
            t = m.ty(k)
            k.expect(",")
            m.ty(k)
            a = self.constexpr(m, k, "ptr")
            n = 0
            cur = t
            while k.peek() == ",":
                k.next()
                it = m.ty(k)
                iv = self.constexpr(m, k, it)
                if n == 0:
                    a += iv * m.sizeof(cur)
                else:
                    r = m.resolve(cur)
                    if r[0] == "s":
                        fo, cur = m.fieldoff(r, iv)
                        a += fo
                    else:
                        cur = r[2]
                        a += iv * m.sizeof(cur)
                n += 1
            k.expect(")")
            return a
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            k.expect("(")
            t = m.ty(k)
            v = self.constexpr(m, k, t)
            k.expect("to")
            m.ty(k)
            k.expect(")")
            return v
        raise Unsupported("constexpr " + x)

    # ---------------------------------------------------------------- memory
    def newobj(self, size, kind, name=None, zero=False):
        i = self.nextid
        self.nextid += 1
        o = Obj()
        o.base = (i << SH) + MID
        o.size = size
        o.alive = True
        o.zero = [(o.base, o.base + size)] if zero else []
        o.addrs = []
        o.name = name or kind
        o.kind = kind
        o.tags = None
        self.objs[i] = o
        return o.base

    def freeobj(self, o):
        o.alive = False
        mem = self.mem
        for a in o.addrs:
            mem.pop(a, None)
        o.addrs = []
        o.zero = []

    def where(self):
        return self.callstack[-1] if self.callstack else "?"

    def memerr(self, what, a, size):
        o = self.getobj(a)
        fn = self.where()
        desc = f"{what} in {fn}"
        if o is not None:
            desc += f" ({o.kind} of {o.size} bytes, offset {a - o.base}{'' if o.alive else ', freed'})"
        self.stat["memerr"] += 1
        raise PathEnd("memerr", (what, fn, desc))

    def chk(self, a, n, what):
        o = self.getobj(a)
        if o is None:
            self.memerr("invalid pointer " + what, a, n)
        if not o.alive:
            self.memerr("use-after-free " + what, a, n)
        if a < o.base or a + n > o.base + o.size:
            self.memerr("out-of-bounds " + what, a, n)
        return o

    def ld(self, a, tag):
        c = self.mem.get(a)
        if c is not None and c[0] == tag:
            return c[1]
        return self.ld_slow(a, tag)

    def ld_slow(self, a, tag):
        n = tsz(tag)
        o = self.chk(a, n, "read")
        mem = self.mem
        # any overlapping cell?
        over = None
        for x in range(a - 7, a + n):
            c = mem.get(x)
            if c is not None and x + tsz(c[0]) > a:
                over = x
                break
        if over is None:
            for lo, hi in o.zero:
                if lo <= a and a + n <= hi:
                    v = F0 if tag in ("d", "f") else 0
                    mem[a] = (tag, v)
                    o.addrs.append(a)
                    return v
            # uninitialised
            self.stat["uninit"] += 1
            if tag in ("d", "f"):
                v = self.fresh("uninit")
            else:
                v = int.from_bytes(b"\xfe" * n, "little", signed=True)   # as in the replay with filled memory
            mem[a] = (tag, v)
            o.addrs.append(a)
            return v
        c = mem.get(a)
        if c is not None and tsz(c[0]) == n:
            return self.convert(c[0], c[1], tag)
        bs = self.getbytes(a, n, o)
        if tag in ("d", "f") and any(type(b) is Torn for b in bs):
            self.stat["uninit"] += 1
            v = self.fresh("torn")
            self.clear(a, n, o)
            mem[a] = (tag, v)
            o.addrs.append(a)
            return v
        if tag == "d":
            return ratfloat(struct.unpack("<d", bytes(bs))[0])
        if tag == "f":
            return ratfloat(struct.unpack("<f", bytes(bs))[0])
        return int.from_bytes(bytes(bs), "little", signed=True)

    def convert(self, ft, v, tt):
        """reinterpret a cell of type ft as tt (same size)"""
        if ft in ("d", "f"):
            if tt in ("d", "f"):
                return v
            if type(v) is P:
                # bits of a symbolic real: keep as opaque value usable only as a copy
                return v
            return int.from_bytes(struct.pack("<d" if ft == "d" else "<f", tofloat(v)), "little", signed=True)
        if tt in ("d", "f"):
            if type(v) in (P, Fraction, float):
                return v
            b = (v & ((1 << 8 * tsz(tt)) - 1)).to_bytes(tsz(tt), "little")
            return ratfloat(struct.unpack("<d" if tt == "d" else "<f", b)[0])
        return v

    def cellbytes(self, tag, v):
        n = tsz(tag)
        if type(v) is P or type(v) is B:
            return [TORN] * n
        if type(v) is Torn:
            return [v]
        if tag == "d":
            return struct.pack("<d", tofloat(v))
        if tag == "f":
            return struct.pack("<f", tofloat(v))
        if type(v) is not int:
            return struct.pack("<d", tofloat(v))
        return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")

    def getbytes(self, a, n, o):
        out = []
        mem = self.mem
        x = a
        while x < a + n:
            hit = False
            for y in range(x, x - 8, -1):
                c = mem.get(y)
                if c is not None and y + tsz(c[0]) > x:
                    out.append(self.cellbytes(c[0], c[1])[x - y])
                    hit = True
                    break
            if not hit:
                out.append(0)
            x += 1
        return out

    def st(self, a, tag, v):
        c = self.mem.get(a)
        if c is not None and c[0] == tag:
            self.mem[a] = (tag, v)
        else:
            self.st_slow(a, tag, v)

    def st_slow(self, a, tag, v):
        n = tsz(tag)
        o = self.chk(a, n, "write")
        if o.kind == "const":
            self.memerr("write to constant", a, n)
        self.clear(a, n, o)
        self.mem[a] = (tag, v)
        o.addrs.append(a)

    def clear(self, a, n, o):
        """remove cells overlapping [a,a+n), splitting partially covered ones"""
        mem = self.mem
        t = o.tags
        for x in range(a - 7, a + n):
            c = mem.get(x)
            if c is not None:
                s = tsz(c[0])
                if x + s <= a:
                    continue
                del mem[x]
                if x >= a and x + s <= a + n:
                    continue
                bs = self.cellbytes(c[0], c[1])
                for i in range(s):
                    if not (a <= x + i < a + n):
                        b = bs[i]
                        mem[x + i] = (1, b - 256 if b > 127 else b)
                        o.addrs.append(x + i)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        so = self.chk(s, n, "read")
        do = self.chk(d, n, "write")
        mem = self.mem
        cells = []
        if len(so.addrs) < n:
            for a in so.addrs:
                if s <= a < s + n and a in mem:
                    cells.append((a, mem[a]))
            # partial at the start
            for a in range(s - 7, s):
                c = mem.get(a)
                if c is not None and a + tsz(c[0]) > s:
                    cells += self.split(a, c, s, s + n)
        else:
            for a in range(s - 7, s + n):
                c = mem.get(a)
                if c is not None and a + tsz(c[0]) > s:
                    if a < s:
                        cells += self.split(a, c, s, s + n)
                    else:
                        cells.append((a, c))
        zs = [(max(lo, s), min(hi, s + n)) for lo, hi in so.zero]
        zs = [z for z in zs if z[0] < z[1]]
        out = []
        for a, c in cells:
            if a + tsz(c[0]) > s + n:
                out += self.split(a, c, s, s + n)
            else:
                out.append((a, c))
        self.clearrange(d, n, do)
        for lo, hi in zs:
            do.zero.append((lo - s + d, hi - s + d))
        off = d - s
        for a, c in out:
            mem[a + off] = c
            do.addrs.append(a + off)

    def split(self, a, c, lo, hi):
        bs = self.cellbytes(c[0], c[1])
        return [(a + i, (1, b - 256 if b > 127 else b)) for i, b in enumerate(bs) if lo <= a + i < hi]

    def clearrange(self, d, n, o):
        mem = self.mem
        if len(o.addrs) < n and n > 16:
            for a in o.addrs:
                c = mem.get(a)
                if c is not None and d <= a and a + tsz(c[0]) <= d + n:
                    del mem[a]
            if len(o.addrs) > 64:
                o.addrs = [a for a in set(o.addrs) if a in mem]
            self.clear(d, 1, o)
            self.clear(d + n - 1, 1, o)
        else:
            self.clear(d, n, o)
        nz = []
        for lo, hi in o.zero:
            if hi <= d or lo >= d + n:
                nz.append((lo, hi))
            else:
                if lo < d:
                    nz.append((lo, d))
                if hi > d + n:
                    nz.append((d + n, hi))
        o.zero = nz

    def memset(self, d, v, n):
        if n == 0:
            return
        o = self.chk(d, n, "write")
        self.clearrange(d, n, o)
        if v & 255 == 0:
            o.zero.append((d, d + n))
        else:
            b = v & 255
            b = b - 256 if b > 127 else b
            for i in range(n):
                self.mem[d + i] = (1, b)
                o.addrs.append(d + i)

    def cstr(self, a):
        out = []
        while True:
            c = self.ld(a, 1)
            if c == 0:
                return bytes(out).decode("latin1")
            out.append(c & 255)
            a += 1

    def wstr(self, a, s):
        b = s.encode("latin1") if type(s) is str else s
        self.chk(a, len(b) + 1, "write")
        for i, c in enumerate(b):
            self.st(a + i, 1, c if c < 128 else c - 256)
        self.st(a + len(b), 1, 0)

    # ---------------------------------------------------------------- calls
    def resolve_call(self, mod, name):
        if name in mod.funcs and mod.funcs[name][0]:
            return self.mkcaller(mod, name)
        m = self.gtab.get(name)
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is not None and (m is None or self.cfg.get("builtin_first", ())):
            return h
        if m is not None and name not in self.cfg.get("builtin_first", ()):
            return self.mkcaller(m, name)
        if h is not None:
            return h
        base = name
        for suf in (".f64", ".f32", ".i32", ".i64", ".p0", ".i8"):
            base = base.replace(suf, "")
        h = getattr(self, "x_" + base.replace(".", "_"), None)
        if h is not None:
            return h
        def unsup(args):
            raise Unsupported("external function " + name)
        return unsup

    def getfunc(self, mod, name):
        k = (mod.idx, name)
        f = self.fcache.get(k)
        if f is None:
            f = self.fcache[k] = codegen.Gen(mod, name, self).f
        return f

    def mkcaller(self, mod, name):
        f = self.getfunc(mod, name)
        M = self
        byv = any(b for r, b in f.params)
        blocks = f.blocks
        pr = [r for r, b in f.params]
        bs = [b for r, b in f.params]
        np_ = len(pr)
        nregs = f.nregs
        ex = self.executed

        def caller(args):
            R = [None] * nregs
            M.callstack.append(name)
            mark = len(M.stack)
            if byv:
                for i in range(np_):
                    if bs[i]:
                        p = M.newobj(bs[i], "byval", name)
                        M.stack.append(p)
                        M.memcpy(p, args[i], bs[i])
                        R[pr[i]] = p
                    else:
                        R[pr[i]] = args[i]
            else:
                for i in range(np_):
                    R[pr[i]] = args[i]
            if f.vararg:
                M.va = args[np_:]
            b = 0
            n = 0
            M.depth += 1
            if M.depth > 180:
                raise Unsupported("recursion depth")
            while b >= 0:
                b = blocks[b](R)
                n += 1
                if n & 4095 == 0:
                    M.tick()
            M.depth -= 1
            M.nblocks += n
            ex[name] = ex.get(name, 0) + 1
            while len(M.stack) > mark:
                p = M.stack.pop()
                o = M.objs.pop(p >> SH)
                mem = M.mem
                for a in o.addrs:
                    mem.pop(a, None)
            M.callstack.pop()
            return R[-1]
        return caller

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise PathEnd("timeout")

    def call_ptr(self, p, args):
        e = self.at_addr.get(p >> SH)
        if e is None or (e[0] == "g"):
            self.memerr("call through invalid pointer", p, 1)
        t = self.fptr.get(p)
        if t is None:
            t = self.fptr[p] = self.resolve_call(e[1] or self.mods[0], e[2])
        return t(args)

    fptr = {}

    def run(self, name):
        m = self.gtab[name]
        return self.mkcaller(m, name)(())

    # ---------------------------------------------------------------- symbolic
    def fresh(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        nm = f"{base}#{k}"
        if self.concrete is not None:
            v = self.concrete(nm, None, None)
            return v
        return var(nm)

    def undef_(self):
        """value of a local variable that was never set: arbitrary (natively 0xfe bytes, see check.confirm)"""
        self.stat["uninit"] += 1
        return self.fresh("uninit")

    def addpc(self, b):
        if b.id not in self.pcids:
            self.pcids.add(b.id)
            self.pc.append(b)

    def mval(self, b):
        """truth of b under the cached model (guess), None if unknown"""
        if self.model is None:
            return None
        try:
            return beval(b, self.model)
        except (EvalErr, OverflowError, ZeroDivisionError):
            return None

    def feasible(self, b):
        cl = b_closure(b)
        conds = smt.slice_conds(self.pc, cl) + [b]
        r, m = smt.solve(conds, self.feas_to, "feasibility")
        return r, m

    def mergemodel(self, m):
        if m is None:
            return
        env = dict(self.model or {})
        for k, v in m.items():
            env[k] = float(v)
        self.model = env

    def fork(self, b):
        if type(b) is int:
            return b
        if self.concrete is not None:
            return self.cbool(b)
        qk = expr.quick(b)
        if qk is not None:
            return qk
        if b.id in self.pcids:
            return 1
        nb = b_not(b)
        if type(nb) is B and nb.id in self.pcids:
            return 0
        if self.cur < len(self.trail):
            v = self.trail[self.cur][0]
            self.cur += 1
            self.addpc(b if v else nb)
            return v
        self.stat["forks"] += 1
        self.tick()
        g = self.mval(b)
        if g is None:
            r1, m1 = self.feasible(b)
            if r1 == "unsat":
                self.addpc(nb)
                self.trail.append((0, None))
                self.cur += 1
                return 0
            r0, m0 = self.feasible(nb)
        elif g:
            r1, m1 = "sat", None
            r0, m0 = self.feasible(nb)
        else:
            r0, m0 = "sat", None
            r1, m1 = self.feasible(b)
        if r0 == "unsat":
            v, alt, m = 1, None, m1
        elif r1 == "unsat":
            v, alt, m = 0, None, m0
        else:
            # take the side the model already satisfies
            if g is None:
                v, m = 1, m1
            else:
                v, m = (1, None) if g else (0, None)
            alt = 1 - v
        self.trail.append((v, alt))
        self.cur += 1
        self.addpc(b if v else nb)
        self.mergemodel(m)
        return v

    def cbool(self, b):
        try:
            return 1 if beval(b, {}) else 0
        except EvalErr:
            raise PathEnd("concrete-eval")

    def choose(self, n):
        """n-way choice (symbolic integer), explored exhaustively"""
        if self.concrete is not None:
            return self.concrete_int(n)
        if self.cur < len(self.trail):
            v = self.trail[self.cur][0]
            self.cur += 1
            return v
        self.trail.append((0, list(range(1, n)) or None))
        self.cur += 1
        return 0

    def concint(self, x, kind):
        """integer value of floor/trunc/ceil/round of a symbolic real: enumerate feasible values"""
        if self.concrete is not None:
            v = feval(x, {})
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda z: math.floor(z + 0.5)}[kind]
            # guard against float evaluation error near integers
            r = round(v)
            if abs(v - r) < 1e-12:
                try:
                    fr = x if type(x) is Fraction else None
                except Exception:
                    fr = None
                if fr is not None:
                    return f(fr)
            return f(v)
        tried = 0
        seen = set()
        while True:
            if self.cur < len(self.trail) and type(self.trail[self.cur][0]) is tuple:
                _, v = self.trail[self.cur][0]
                self.cur += 1
            else:
                g = None
                if self.model is not None:
                    try:
                        g = feval(x, self.model)
                    except (EvalErr, OverflowError):
                        g = None
                if g is None or g != g or abs(g) > 1e9:
                    r, m = smt.solve(smt.slice_conds(self.pc, v_closure(x)) or [1], self.feas_to, "feasibility")
                    if m is not None:
                        env = {k: 0.5 for k in ()}
                        self.mergemodel(m)
                        for a in v_closure(x):
                            at = Atom.all[a]
                            if at.kind == "var" and at.data not in self.model:
                                lo, hi = BOUNDS.get(at.data, (None, None))
                                self.model[at.data] = float(lo if lo is not None else hi if hi is not None else 0)
                        try:
                            g = feval(x, self.model)
                        except (EvalErr, OverflowError):
                            g = None
                if g is None or g != g:
                    raise Unsupported("cannot concretise integer")
                v = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda z: math.floor(z + 0.5)}[kind](g)
                if v in seen:      # the model is stale or evaluation in floats crossed an integer
                    n = next((w for w in (v - 1, v + 1) if w not in seen), None)
                    r, m = smt.solve(list(self.pc), self.feas_to, "feasibility")
                    if r == "unsat":
                        raise PathEnd("infeasible")
                    if m is not None:
                        self.mergemodel(m)
                        v = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda z: math.floor(z + 0.5)}[kind](feval(x, self.model))
                    if n is not None and v in seen:
                        v = n
                self.trail.append((("int", v), None))
                self.cur += 1
            seen.add(v)
            fv = Fraction(v)
            if kind == "floor":
                c = b_and(le(fv, x), lt(x, fv + 1))
            elif kind == "ceil":
                c = b_and(lt(fv - 1, x), le(x, fv))
            elif kind == "round":
                c = b_and(le(fv - Fraction(1, 2), x), lt(x, fv + Fraction(1, 2)))
            elif v > 0:
                c = b_and(le(fv, x), lt(x, fv + 1))
            elif v < 0:
                c = b_and(lt(fv - 1, x), le(x, fv))
            else:
                c = b_and(lt(Fraction(-1), x), lt(x, Fraction(1)))
            if type(c) is not B:
                if c:
                    return v
            elif self.fork(c):
                return v
            tried += 1
            if tried > self.cfg.get("max_int_values", 40):
                raise Unsupported("too many integer values")

    # ---------------------------------------------------------------- obligations
    def record_input(self, nm, v):
        self.inputs.append((nm, v))

    def check(self, b, msg, alts=()):
        """obligation: b must hold.  alts: stronger negations to try first for a robust counterexample"""
        self.stat["checks"] += 1
        self.checks_here += 1
        if type(b) is not B:
            if b:
                self.stat["checks_norm"] += 1
                return
            r, m = smt.solve(list(self.pc), self.check_to, "path-sat")
            self.stat["checks_solver"] += 1
            if r == "sat":
                self.violate(msg, m)
            elif r == "unknown":
                self.unknowns.append(msg)
                self.stat["unknown"] += 1
            return
        if expr.quick(b) == 1 or b.id in self.pcids:
            self.stat["checks_norm"] += 1
            return
        nb = b_not(b)
        self.stat["checks_solver"] += 1
        sl = smt.slice_conds(self.pc, b_closure(b))
        r, m = smt.solve(sl + [nb], self.check_to, "obligation")
        if r == "unsat":
            self.addpc(b)
            return
        if r == "unknown":
            # look for a concrete falsification
            m = self.falsify(nb)
            if m is None:
                self.unknowns.append(msg)
                self.stat["unknown"] += 1
                self.addpc(b)
                return
        # robust counterexamples: whole path condition plus margin
        cands = []
        dirty = [Atom.all[a] for a in b_closure(nb) if Atom.all[a].kind == "var" and str(Atom.all[a].data).startswith("uninit")]
        if dirty:
            # unset variables hold 0xfe bytes in the native replay
            g = [eq(var(a.data), Fraction(struct.unpack("<d", b"\xfe" * 8)[0])) for a in dirty]
            for q in list(alts) + [nb]:
                r2, m2 = smt.solve(list(self.pc) + g + [q], min(self.check_to, 8000), "counterexample")
                if r2 == "sat":
                    cands.append(m2)
                    break
        for a in alts:
            r2, m2 = smt.solve(list(self.pc) + [a], min(self.check_to, 8000), "counterexample")
            if r2 == "sat":
                cands.append(m2)
                break
        r2, m2 = smt.solve(list(self.pc) + [nb], min(self.check_to, 8000), "counterexample")
        if r2 == "sat":
            cands.append(m2)
        if m is not None:
            mm = dict(self.model or {})
            mm.update(m)
            cands.append(mm)
        self.violate(msg, *cands)

    def falsify(self, nb, n=200):
        import random
        rng = random.Random(1)
        vs = [Atom.all[a].data for a in set().union(*[b_closure(c) for c in self.pc + [nb]]) if Atom.all[a].kind == "var"]
        base = self.model or {}
        for t in range(n):
            env = {}
            for v in vs:
                lo, hi = BOUNDS.get(v, (None, None))
                lo = -3.0 if lo is None else float(lo)
                hi = lo + 6.0 if hi is None else float(hi)
                env[v] = base[v] if (v in base and rng.random() < 0.5) else rng.uniform(lo, hi)
            try:
                if all(beval(c, env) for c in self.pc) and beval(nb, env):
                    return {k: Fraction(v) for k, v in env.items()}
            except (EvalErr, OverflowError, ZeroDivisionError):
                continue
        return None

    def violate(self, msg, *models):
        self.violations.append(dict(msg=msg, inputs=list(self.inputs), models=[m for m in models if m is not None], pc=list(self.pc),
                                    trail=list(self.trail[:self.cur]), kind="check"))
        raise PathEnd("violation", msg)

    # ---------------------------------------------------------------- namespace for generated code
    def mkns(self):
        M = self
        ns = self.ns
        ns.update(mem=self.mem, ld=self.ld, ld_slow=self.ld_slow, st_slow=self.st_slow, B=B, fork=self.fork, neg=neg,
                  fadd=add, fsub=sub, fmul=mul, fdiv=self.fdiv, frem=self.frem, b_and=b_and, b_or=b_or, call_ptr=self.call_ptr)

        def b2i(b):
            if type(b) is B:
                return M.fork(b)
            return b
        ns["b2i"] = b2i

        def b_xor(a, b):
            if type(a) is not B and type(b) is not B:
                return a ^ b
            if type(a) is not B:
                a, b = b, a
            if type(b) is not B:
                return b_not(a) if b & 1 else a
            return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        ns["b_xor"] = b_xor

        def icmp1(pr, a, b):
            if pr == "ne":
                return b_xor(a, b)
            if pr == "eq":
                return b_not(b_xor(a, b))
            raise Unsupported("icmp i1 " + pr)
        ns["icmp1"] = icmp1

        def cdiv(a, b):
            if b == 0:
                raise PathEnd("memerr", ("integer division by zero", M.where(), "integer division by zero in " + M.where()))
            qq = abs(a) // abs(b)
            return qq if (a < 0) == (b < 0) else -qq
        ns["cdiv"] = cdiv
        ns["crem"] = lambda a, b: a - b * cdiv(a, b)

        def isnan(x):
            return type(x) is float and x != x
        ns["fcmp_oeq"] = eq
        ns["fcmp_ueq"] = lambda a, b: 1 if isnan(a) or isnan(b) else eq(a, b)
        ns["fcmp_une"] = lambda a, b: 1 if isnan(a) or isnan(b) else b_not(eq(a, b))
        ns["fcmp_one"] = lambda a, b: 0 if isnan(a) or isnan(b) else b_not(eq(a, b))
        ns["fcmp_olt"] = lt
        ns["fcmp_ole"] = le
        ns["fcmp_ogt"] = lambda a, b: lt(b, a)
        ns["fcmp_oge"] = lambda a, b: le(b, a)
        ns["fcmp_ult"] = lambda a, b: 1 if isnan(a) or isnan(b) else lt(a, b)
        ns["fcmp_ule"] = lambda a, b: 1 if isnan(a) or isnan(b) else le(a, b)
        ns["fcmp_ugt"] = lambda a, b: 1 if isnan(a) or isnan(b) else lt(b, a)
        ns["fcmp_uge"] = lambda a, b: 1 if isnan(a) or isnan(b) else le(b, a)
        ns["fcmp_uno"] = lambda a, b: 1 if isnan(a) or isnan(b) else 0
        ns["fcmp_ord"] = lambda a, b: 0 if isnan(a) or isnan(b) else 1

        def fselect(c, a, b):
            if type(c) is B:
                qk = expr.quick(c)
                if qk is not None:
                    return a if qk else b
                if type(a) is type(b) and a == b:
                    return a
                if c.id in M.pcids:
                    return a
                nc = b_not(c)
                if type(nc) is B and nc.id in M.pcids:
                    return b
                if not M.mode_ite or type(a) is float or type(b) is float or M.concrete is not None:
                    return a if M.fork(c) else b
                return ite(c, a, b)
            return a if c else b
        ns["fselect"] = fselect
        self.fselect = fselect

        def bselect(c, a, b):
            if type(c) is not B:
                return a if c else b
            return b_or(b_and(c, a), b_and(b_not(c), b))
        ns["bselect"] = bselect

        def unreachable():
            raise PathEnd("unreachable", M.where())
        ns["unreachable"] = unreachable

        def alloca(n):
            p = M.newobj(n, "stack", M.where())
            M.stack.append(p)
            return p
        ns["alloca"] = alloca
        ns["undef_"] = self.undef_

        def ld_agg(p, mt):
            m, t = mt
            if type(t) is str:
                return M.ld(p, "d" if t == "double" else "f" if t == "float" else m.sizeof(t))
            t = m.resolve(t)
            if t[0] == "s":
                out = []
                for i in range(len(t[1])):
                    fo, et = m.fieldoff(t, i)
                    out.append(ld_agg(p + fo, (m, m.resolve(et))))
                return tuple(out)
            s = m.sizeof(t[2])
            return tuple(ld_agg(p + i * s, (m, m.resolve(t[2]))) for i in range(t[1]))
        ns["ld_agg"] = ld_agg

        def st_agg(p, v, mt):
            m, t = mt
            if type(t) is str:
                return M.st(p, "d" if t == "double" else "f" if t == "float" else m.sizeof(t), v)
            t = m.resolve(t)
            if t[0] == "s":
                for i in range(len(t[1])):
                    fo, et = m.fieldoff(t, i)
                    st_agg(p + fo, v[i], (m, m.resolve(et)))
                return
            s = m.sizeof(t[2])
            for i in range(t[1]):
                st_agg(p + i * s, v[i], (m, m.resolve(t[2])))
        ns["st_agg"] = st_agg

        def insertv(a, v, i):
            l = list(a)
            l[int(i)] = v
            return tuple(l)
        ns["insertv"] = insertv
        ns["itof"] = lambda a: Fraction(a)

        def ftoi(x, bits):
            if type(x) is P:
                return M.concint(x, "trunc")
            if type(x) is float:
                return -(1 << (bits - 1))
            return math.trunc(x)
        ns["ftoi"] = ftoi

        def fbitcast(v, t, t2):
            if t in ("double", "float"):
                return M.convert("d" if t == "double" else "f", v, 8 if t2 == "i64" else 4)
            return M.convert(8 if t == "i64" else 4, v, "d" if t2 == "double" else "f")
        ns["fbitcast"] = fbitcast
        ns["WS"] = None

    def fdiv(self, a, b):
        if type(b) is P:
            s = sgn(b)
            if s & ZERO:
                z = eq(b, F0)
                nz = b_not(z)
                if type(nz) is B:
                    if nz.id not in self.pcids:
                        if self.concrete is None:
                            # explore the zero denominator separately: IEEE gives inf/nan
                            if self.cfg.get("div_fork", True):
                                if self.fork(z):
                                    return self.div0(a)
                            else:
                                self.stat["assume_div"] += 1
                                self.addpc(nz)
                elif not nz:
                    return self.div0(a)
        return div(a, b)

    def div0(self, a):
        """a/0: IEEE infinity or NaN (the sign of the zero is taken as positive)"""
        if self.flags.get("div0_is_violation"):
            raise PathEnd("div0", self.where())
        self.stat["div0"] += 1
        if type(a) is float:
            return a if a != a else math.copysign(math.inf, a)
        if type(a) is P:
            if self.fork(eq(a, F0)):
                return math.nan
            return -math.inf if self.fork(lt(a, F0)) else math.inf
        return math.nan if a == 0 else math.inf if a > 0 else -math.inf

    def frem(self, a, b):
        if type(a) is Fraction and type(b) is Fraction and b != 0:
            qq = a / b
            return a - b * math.trunc(qq)
        if type(b) is Fraction and b > 0 and type(a) is P:
            n = self.concint(div(a, b), "trunc")
            return sub(a, mul(b, Fraction(n)))
        raise Unsupported("frem")


def cstr(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == "\\\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)
