"""libc / libm / harness-API models for the symbolic machine."""
import math, re
from fractions import Fraction
import expr
from expr import *
import smt
from rt import *
from llir import ratfloat

MARGINS = (Fraction(1, 10), Fraction(1, 1000))


class LibMachine(Machine):
    # ------------------------------------------------------------ allocation
    def x_malloc(self, a):
        return self.newobj(a[0], "heap", self.where())

    def x_calloc(self, a):
        return self.newobj(a[0] * a[1], "heap", self.where(), zero=True)

    def x_realloc(self, a):
        p, n = a
        q = self.newobj(n, "heap", self.where())
        if p:
            o = self.chk(p, 0, "realloc")
            self.memcpy(q, p, min(n, o.size))
            self.freeobj(o)
        return q

    def x_free(self, a):
        p = a[0]
        if p == 0:
            return
        o = self.getobj(p)
        if o is None or o.kind != "heap" or p != o.base:
            self.memerr("invalid free", p, 1)
        if not o.alive:
            self.memerr("double free", p, 1)
        self.freeobj(o)

    def x_llvm_memcpy(self, a):
        self.memcpy(a[0], a[1], a[2])

    x_memcpy_ = x_llvm_memcpy
    x_llvm_memmove = x_llvm_memcpy

    def x_memcpy(self, a):
        self.memcpy(a[0], a[1], a[2])
        return a[0]

    x_memmove = x_memcpy

    def x_llvm_memset(self, a):
        self.memset(a[0], a[1], a[2])

    def x_memset(self, a):
        self.memset(a[0], a[1], a[2])
        return a[0]

    # ------------------------------------------------------------ misc
    def x_exit(self, a):
        raise PathEnd("exit", a[0])

    x__exit = x_exit

    def x_abort(self, a):
        raise PathEnd("exit", 134)

    def x___assert_fail(self, a):
        raise PathEnd("exit", 134)

    def x_clock(self, a):
        return 0

    def x_time(self, a):
        return 0

    def x_srand(self, a):
        return 0

    def x_rand(self, a):
        # arbitrary value in [0, RAND_MAX]: the real quotient rand()/RAND_MAX is what callers use
        k = self.flags.get("rand")
        if k is None:
            return 0
        vals = k
        i = self.choose(len(vals))
        return vals[i]

    def x_llvm_abs(self, a):
        return abs(a[0])

    x_abs = x_llvm_abs
    x_labs = x_llvm_abs

    def x_llvm_is_fpclass(self, a):
        x, m = a
        if type(x) is float:
            if x != x:
                return 1 if m & 3 else 0
            return 1 if (m & (1 << 9) if x > 0 else m & 4) else 0
        if m & ~0x207 == 0:
            return 0      # nan/inf test on a finite value
        raise Unsupported("is.fpclass")

    def x_system(self, a):
        return 0

    def x_mkdir(self, a):
        return 0

    def x_stat(self, a):
        return -1

    def x_fflush(self, a):
        return 0

    def x_omp_get_wtime(self, a):
        return F0

    # ------------------------------------------------------------ math
    def x_llvm_fabs(self, a):
        x = a[0]
        if type(x) is not P:
            return abs(x)
        s = sgn(x)
        if not s & NEG:
            return x
        if not s & POS:
            return neg(x)
        if self.cfg.get("fabs_fork") and self.concrete is None:
            return neg(x) if self.fork(lt(x, F0)) else x
        return self.fselect(lt(x, F0), neg(x), x)

    x_fabs = x_llvm_fabs

    def x_llvm_sqrt(self, a):
        x = a[0]
        if type(x) is P and sgn(x) & NEG:
            if self.concrete is None and self.fork(lt(x, F0)):
                return math.nan
        return sqrt_(x)

    x_sqrt = x_llvm_sqrt

    def x_llvm_floor(self, a):
        x = a[0]
        if type(x) is P:
            return Fraction(self.concint(x, "floor"))
        return x if type(x) is float else Fraction(math.floor(x))

    x_floor = x_llvm_floor

    def x_llvm_ceil(self, a):
        x = a[0]
        if type(x) is P:
            return Fraction(self.concint(x, "ceil"))
        return x if type(x) is float else Fraction(math.ceil(x))

    x_ceil = x_llvm_ceil

    def x_round(self, a):
        x = a[0]
        if type(x) is P:
            return Fraction(self.concint(x, "round"))
        return x if type(x) is float else Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))

    x_llvm_round = x_round

    def x_llvm_minnum(self, a):
        return self.fselect(lt(a[0], a[1]), a[0], a[1])

    def x_llvm_maxnum(self, a):
        return self.fselect(lt(a[0], a[1]), a[1], a[0])

    x_fmin = x_llvm_minnum
    x_fmax = x_llvm_maxnum

    def mathuf(self, name, x):
        if type(x) is float:
            try:
                return fromfloat(float(getattr(math, name)(x)))
            except (ValueError, OverflowError):
                return math.nan
        if self.cfg.get("math_approx") and type(x) is Fraction:
            try:
                return ratfloat(float(getattr(math, name)(float(x))))
            except (ValueError, OverflowError):
                return math.nan
        return uf(name, [x])

    def x_llvm_exp(self, a):
        x = a[0]
        if type(x) is Fraction and x == 0:
            return F1
        if type(x) is float:
            return F0 if x == -math.inf else x
        if type(x) is P and self.cfg.get("exp_hom"):
            # exp(a+b) = exp(a) exp(b), term by term
            r = F1
            for m, c in x.t.items():
                if not m:
                    r = mul(r, self.expterm(c, None))
                else:
                    r = mul(r, self.expterm(c, m))
            return r
        return self.mathuf("exp", x)

    def expterm(self, c, m):
        if m is None:
            if self.cfg.get("math_approx"):
                return ratfloat(math.exp(float(c)))
            return uf("exp", [c])
        n = c.numerator
        if len(m) == 1 and m[0][1] == 1:
            at = Atom.all[m[0][0]]
            if at.kind == "uf" and at.data[0] == "log" and not sgn(at.data[1]) & (NEG | ZERO):
                return self.x_llvm_pow((at.data[1], c))
        if abs(n) <= 8:
            base = uf("exp", [P({m: Fraction(1, c.denominator)})])
            return powi(base, n)
        return uf("exp", [P({m: c})])

    x_exp = x_llvm_exp

    def x_llvm_log(self, a):
        x = a[0]
        if type(x) is Fraction:
            if x == 1:
                return F0
            if x == 0:
                return -math.inf
            if x < 0:
                return math.nan
        if type(x) is P and len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] in (1, -1) and c == 1:
                at = Atom.all[m[0][0]]
                if at.kind == "uf" and at.data[0] == "exp":
                    return mul(Fraction(m[0][1]), at.data[1])
            if all(sgn_atom(a) == POS for a, e in m) and c > 0:
                # log of a product of positive atoms
                r = F0 if c == 1 else self.mathuf("log", c)
                for a_, e in m:
                    at = Atom.all[a_]
                    if at.kind == "uf" and at.data[0] == "exp":
                        t = at.data[1]
                    else:
                        t = self.mathuf("log", P({((a_, 1),): F1}))
                    r = add(r, mul(Fraction(e), t))
                return r
        return self.mathuf("log", x)

    x_log = x_llvm_log

    def x_llvm_log10(self, a):
        x = a[0]
        if type(x) is Fraction and x > 0:
            n = round(math.log10(x)) if x else 0
            if Fraction(10) ** n == x:
                return Fraction(n)
            return self.mathuf("log10", x)
        if type(x) is Fraction:
            return -math.inf if x == 0 else math.nan
        return self.mathuf("log10", x)

    x_log10 = x_llvm_log10

    def x_llvm_sin(self, a):
        if type(a[0]) is Fraction and a[0] == 0:
            return F0
        x = a[0]
        if type(x) is P and self.neglead(x):
            return neg(self.mathuf("sin", neg(x)))
        return self.mathuf("sin", x)

    x_sin = x_llvm_sin

    def neglead(self, x):
        return min(x.t.items(), key=lambda kv: kv[0])[1] < 0

    def x_llvm_cos(self, a):
        if type(a[0]) is Fraction and a[0] == 0:
            return F1
        x = a[0]
        # cos(atan(..)) etc are left opaque
        if type(x) is P and self.neglead(x):
            x = neg(x)
        return self.mathuf("cos", x)

    x_cos = x_llvm_cos

    def x_tan(self, a):
        if type(a[0]) is Fraction and a[0] == 0:
            return F0
        return self.mathuf("tan", a[0])

    x_llvm_tan = x_tan

    def x_atan(self, a):
        if type(a[0]) is Fraction and a[0] == 0:
            return F0
        return self.mathuf("atan", a[0])

    def x_atan2(self, a):
        if type(a[0]) is Fraction and a[0] == 0 and type(a[1]) is Fraction and a[1] > 0:
            return F0
        if all(type(x) is not P for x in a):
            return ratfloat(math.atan2(tofloat(a[0]), tofloat(a[1])))
        return uf("atan2", a)

    def x_acos(self, a):
        return self.mathuf("acos", a[0])

    def x_asin(self, a):
        return self.mathuf("asin", a[0])

    def x_erfc(self, a):
        return self.mathuf("erfc", a[0])

    def x_erf(self, a):
        return self.mathuf("erf", a[0])

    def x_tanh(self, a):
        return self.mathuf("tanh", a[0])

    def x_llvm_pow(self, a):
        x, y = a
        if type(x) is float or type(y) is float:
            try:
                return fromfloat(math.pow(tofloat(x), tofloat(y)))
            except (ValueError, OverflowError):
                return math.nan
        if type(y) is Fraction:
            if y.denominator == 1:
                n = y.numerator
                if n < 0:
                    if type(x) is Fraction and x == 0:
                        return math.inf
                    return self.fdiv(F1, powi(x, -n))
                if abs(n) <= 64 or type(x) is P:
                    return powi(x, n)
                return ratfloat(math.pow(float(x), n))
            if y.denominator == 2 and abs(y.numerator) <= 9:
                r = powi(self.x_llvm_sqrt((x,)), abs(y.numerator))
                return r if y > 0 else self.fdiv(F1, r)
            if type(x) is Fraction:
                if x == 1:
                    return F1
                if x == 0:
                    return F0 if y > 0 else math.inf
                if x < 0:
                    return math.nan
                try:
                    f = math.pow(float(x), float(y))
                except OverflowError:
                    return math.inf
                g = ratfloat(f)
                if self.cfg.get("math_approx", False):
                    return g
                if Fraction(g) ** y.denominator == x ** y.numerator:
                    return g
                return uf("pow", [x, y])
            if not sgn(x) & (NEG | ZERO):
                return self.pospow(x, y)
            return uf("pow", [x, y])
        if type(x) is Fraction and x == 1:
            return F1
        if type(x) is Fraction and x > 0 and self.cfg.get("exp_hom"):
            return self.x_llvm_exp((mul(self.mathuf("log", x), y),))
        return uf("pow", [x, y])

    def pospow(self, x, y):
        """x^y for x>0 symbolic, y non-integer rational: pull monomial factors and nested pows apart"""
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if all(sgn_atom(a) == POS for a, e in m):
                r = F1
                if c != 1:
                    r = mul(r, self.x_llvm_pow((c, y)))
                for a, e in m:
                    at = Atom.all[a]
                    ee = y * e
                    base = P({((a, 1),): F1})
                    if at.kind == "uf" and at.data[0] == "pow" and type(at.data[2]) is Fraction:
                        base = at.data[1]
                        ee = ee * at.data[2]
                    elif at.kind == "uf" and at.data[0] == "exp":
                        r = mul(r, self.x_llvm_exp((mul(at.data[1], ee),)))
                        continue
                    elif at.kind == "sqrt":
                        base = at.data
                        ee = ee / 2
                    if ee.denominator == 1 or (type(base) is P and len(base.t) == 1 and base is not x and (base.t != {((a, 1),): F1})):
                        r = mul(r, self.x_llvm_pow((base, ee)))
                        continue
                    # integer part out, fractional part as atom
                    fl = math.floor(ee)
                    fr = ee - fl
                    if fl:
                        r = mul(r, powi(base, fl))
                    if fr == Fraction(1, 2):
                        r = mul(r, sqrt_(base))
                    elif fr and fr.denominator <= 12:
                        r = mul(r, powi(uf("pow", [base, Fraction(1, fr.denominator)]), fr.numerator))
                    elif fr:
                        r = mul(r, uf("pow", [base, fr]))
                return r
        return uf("pow", [x, y])

    x_pow = x_llvm_pow

    # ------------------------------------------------------------ strings
    def x_strlen(self, a):
        return len(self.cstr(a[0]))

    def x_strcmp(self, a):
        x, y = self.cstr(a[0]), self.cstr(a[1])
        return (x > y) - (x < y)

    def x_strncmp(self, a):
        x, y = self.cstr(a[0])[:a[2]], self.cstr(a[1])[:a[2]]
        return (x > y) - (x < y)

    def x_strcpy(self, a):
        self.wstr(a[0], self.cstr(a[1]))
        return a[0]

    def x_strncpy(self, a):
        s = self.cstr(a[1])[:a[2]]
        for i in range(a[2]):
            self.st(a[0] + i, 1, ord(s[i]) if i < len(s) else 0)
        return a[0]

    def x_strcat(self, a):
        self.wstr(a[0] + len(self.cstr(a[0])), self.cstr(a[1]))
        return a[0]

    def x_strdup(self, a):
        s = self.cstr(a[0])
        p = self.newobj(len(s) + 1, "heap", self.where())
        self.wstr(p, s)
        return p

    def x_strstr(self, a):
        i = self.cstr(a[0]).find(self.cstr(a[1]))
        return 0 if i < 0 else a[0] + i

    def x_strchr(self, a):
        i = (self.cstr(a[0]) + "\0").find(chr(a[1]))
        return 0 if i < 0 else a[0] + i

    def x_memcmp(self, a):
        for i in range(a[2]):
            x, y = self.ld(a[0] + i, 1) & 255, self.ld(a[1] + i, 1) & 255
            if x != y:
                return 1 if x > y else -1
        return 0

    def x_atoi(self, a):
        m = re.match(r"\s*([-+]?\d+)", self.cstr(a[0]))
        return int(m.group(1)) if m else 0

    def x_atof(self, a):
        s = self.cstr(a[0])
        m = re.match(r"\s*\x01(\d+)\x01", s)     # symbolic numeral written by the harness (see vx_file_num)
        if m:
            return self.symnums[int(m.group(1))]
        m = re.match(r"\s*([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan))", s)
        if not m:
            return F0
        return ratfloat(float(m.group(1)))

    def x_strtod(self, a):
        return self.x_atof((a[0],))

    def x_isspace(self, a):
        return 1 if chr(a[0] & 255).isspace() else 0

    def x_isdigit(self, a):
        return 1 if chr(a[0] & 255).isdigit() else 0

    def x___ctype_b_loc(self, a):
        p = self.flags.get("ctype")
        if p is None:
            base = self.newobj(384 * 2, "heap", "ctype")
            for i in range(384):
                c = i - 128
                v = 0
                if 0 <= c < 128:
                    ch = chr(c)
                    v |= 256 * ch.isupper() | 512 * ch.islower() | 1024 * ch.isalpha() | 2048 * ch.isdigit() | 8192 * (ch in " \t\n\v\f\r")
                    v |= 1 * (ch in " \t") | 2 * (c < 32 or c == 127) | 4 * (ch.isprintable() and not ch.isalnum() and ch != " ") | 8 * ch.isalnum()
                    v |= 4096 * (ch in "0123456789abcdefABCDEF") | 16384 * ch.isprintable() | 32768 * (ch.isprintable() and ch != " ")
                if v >= 32768:
                    v -= 65536
                self.st(base + 2 * i, 2, v)
            p = self.newobj(8, "heap", "ctype")
            self.st(p, 8, base + 256)
            self.flags["ctype"] = p
        return p

    def fmt(self, f, args):
        out = []
        i = 0
        ai = 0
        for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z|j)?([a-zA-Z%])|[^%]+|%", f):
            s = m.group(0)
            if s[0] != "%" or len(s) == 1:
                out.append(s)
                continue
            fl, w, pr, ln, cv = m.groups()
            if cv == "%":
                out.append("%")
                continue
            w = w or ""
            if w == "*":
                w = str(args[ai]); ai += 1
            if pr == "*":
                pr = str(args[ai]); ai += 1
            sp = "%" + fl + w + ("." + pr if pr is not None else "")
            v = args[ai] if ai < len(args) else 0
            ai += 1
            if cv == "s":
                out.append((sp + "s") % self.cstr(v))
            elif cv in "diu":
                out.append((sp + "d") % v)
            elif cv in "xX":
                out.append((sp + cv) % (v & 0xffffffff))
            elif cv == "c":
                out.append(chr(v & 255))
            elif cv == "p":
                out.append(hex(v))
            elif cv in "fFeEgG":
                if type(v) is P:
                    out.append("<sym>")
                else:
                    out.append((sp + cv) % tofloat(v))
            else:
                out.append("?")
        return "".join(out)

    def x_printf(self, a):
        return 0

    def x_puts(self, a):
        return 0

    x_putchar = x_puts
    x_perror = x_puts

    def x_sprintf(self, a):
        s = self.fmt(self.cstr(a[1]), a[2:])
        self.wstr(a[0], s)
        return len(s)

    def x_snprintf(self, a):
        s = self.fmt(self.cstr(a[2]), a[3:])
        if a[1] > 0:
            self.wstr(a[0], s[:a[1] - 1])
        return len(s)

    def x_asprintf(self, a):
        s = self.fmt(self.cstr(a[1]), a[2:])
        p = self.newobj(len(s) + 1, "heap", self.where())
        self.wstr(p, s)
        self.st(a[0], 8, p)
        return len(s)

    # ------------------------------------------------------------ files
    def x_fopen(self, a):
        name, mode = self.cstr(a[0]), self.cstr(a[1])
        if "r" in mode and "+" not in mode:
            if name not in self.fs:
                return 0
        elif "w" in mode or name not in self.fs:
            self.fs[name] = []
        f = VFile(name, self.fs[name])
        f.mode = mode
        if "a" in mode:
            f.pos = len(f.cells)
        h = self.newobj(216, "file", name, zero=True)
        self.files[h] = f
        return h

    x_fopen64 = x_fopen

    def getf(self, h):
        f = self.files.get(h)
        if f is None:
            self.memerr("invalid FILE*", h, 1)
        return f

    def x_fclose(self, a):
        self.getf(a[0])
        del self.files[a[0]]
        return 0

    x_pclose = x_fclose

    def x_feof(self, a):
        return 1 if self.getf(a[0]).eof else 0

    def x_rewind(self, a):
        f = self.getf(a[0])
        f.pos = 0
        f.bo = 0
        f.eof = False

    def x_fseek(self, a):
        f = self.getf(a[0])
        off, wh = a[1], a[2]
        total = sum(tsz(t) for t, v in f.cells)
        cur = sum(tsz(t) for t, v in f.cells[:f.pos]) + f.bo
        tgt = off + (0 if wh == 0 else cur if wh == 1 else total)
        f.eof = False
        f.pos, f.bo = 0, 0
        acc = 0
        for i, (t, v) in enumerate(f.cells):
            if acc + tsz(t) > tgt:
                f.pos, f.bo = i, tgt - acc
                return 0
            acc += tsz(t)
        f.pos = len(f.cells)
        return 0

    def x_ftell(self, a):
        f = self.getf(a[0])
        return sum(tsz(t) for t, v in f.cells[:f.pos]) + f.bo

    def x_fwrite(self, a):
        p, sz, n, h = a
        f = self.getf(h)
        tot = sz * n
        if tot == 0:
            return n
        if f.pos != len(f.cells):
            raise Unsupported("overwrite in file")
        o = self.chk(p, tot, "read")
        x = p
        while x < p + tot:
            c = self.mem.get(x)
            if c is None:
                # zero or uninitialised: unit = element size
                tag = {8: "d", 4: 4, 1: 1, 2: 2}.get(sz, 1)
                over = any((y in self.mem) for y in range(x, min(x + tsz(tag), p + tot)))
                if over:
                    tag = 1
                v = self.ld(x, tag)
                if tag == "d" and type(v) is Fraction and v == 0:
                    pass
                c = (tag, v)
            if x + tsz(c[0]) > p + tot:
                if type(c[0]) is not int:
                    raise Unsupported("partial cell write")
                for b in self.cellbytes(*c)[:p + tot - x]:
                    f.cells.append((1, b - 256 if b > 127 else b))
                break
            f.cells.append(c)
            x += tsz(c[0])
        f.pos = len(f.cells)
        return n

    def x_fread(self, a):
        p, sz, n, h = a
        f = self.getf(h)
        tot = sz * n
        got = 0
        if tot:
            self.chk(p, tot, "write")
        while got < tot:
            if f.pos >= len(f.cells):
                f.eof = True
                break
            t, v = f.cells[f.pos]
            s = tsz(t)
            if f.bo == 0 and got + s <= tot:
                self.st_slow(p + got, t, v)
                got += s
                f.pos += 1
            else:
                b = self.cellbytes(t, v)[f.bo]
                self.st_slow(p + got, 1, b - 256 if b > 127 else b)
                got += 1
                f.bo += 1
                if f.bo == s:
                    f.bo = 0
                    f.pos += 1
        return got // sz if sz else 0

    def fgetc1(self, f):
        if f.pos >= len(f.cells):
            f.eof = True
            return -1
        t, v = f.cells[f.pos]
        b = self.cellbytes(t, v)[f.bo]
        f.bo += 1
        if f.bo == tsz(t):
            f.bo = 0
            f.pos += 1
        return b

    def x_fgetc(self, a):
        return self.fgetc1(self.getf(a[0]))

    x_getc = x_fgetc

    def x_fgets(self, a):
        p, n, h = a
        f = self.getf(h)
        i = 0
        while i < n - 1:
            c = self.fgetc1(f)
            if c < 0:
                break
            self.st(p + i, 1, c if c < 128 else c - 256)
            i += 1
            if c == 10:
                break
        if i == 0:
            return 0
        self.st(p + i, 1, 0)
        return p

    def x_fprintf(self, a):
        f = self.files.get(a[0])
        if f is None:
            return 0
        s = self.fmt(self.cstr(a[1]), a[2:])
        for c in s.encode("latin1"):
            f.cells.append((1, c))
        f.pos = len(f.cells)
        return len(s)

    def x_fputs(self, a):
        f = self.files.get(a[1])
        if f is not None:
            for c in self.cstr(a[0]).encode("latin1"):
                f.cells.append((1, c))
            f.pos = len(f.cells)
        return 0

    # ------------------------------------------------------------ harness API
    symnums = {}

    def uname(self, p):
        base = self.cstr(p)
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return f"{base}#{k}"

    def x_vx_real(self, a):
        nm = self.uname(a[0])
        lo, hi = a[1], a[2]
        lo = None if type(lo) is float else lo
        hi = None if type(hi) is float else hi
        if lo is not None and hi is not None and lo == hi:
            self.record_input(nm, lo)
            return lo
        if self.concrete is not None:
            v = self.concrete(nm, lo, hi)
            self.record_input(nm, v)
            return v
        if BOUNDS.get(nm) != (lo, hi):
            if nm in BOUNDS:
                raise RuntimeError(f"input {nm} drawn with two different ranges")
            BOUNDS[nm] = (lo, hi)
        v = var(nm)
        self.record_input(nm, v)
        return v

    def x_vx_any(self, a):
        return self.x_vx_real((a[0], -math.inf, math.inf))

    def x_vx_int(self, a):
        nm = self.uname(a[0])
        lo, hi = a[1], a[2]
        v = lo + self.choose(hi - lo + 1)
        self.record_input(nm, v)
        return v

    def assume(self, b):
        if type(b) is B:
            if self.concrete is not None:
                if not self.cbool(b):
                    raise PathEnd("assume")
                return
            qk = expr.quick(b)
            if qk == 1 or b.id in self.pcids:
                return
            if qk == 0:
                raise PathEnd("assume")
            g = self.mval(b)
            if not g:
                r, m = self.feasible(b)
                if r == "unsat":
                    raise PathEnd("assume")
                self.mergemodel(m)
            self.addpc(b)
        elif not b:
            raise PathEnd("assume")

    def x_vx_assume(self, a):
        self.assume(a[0])

    def x_vx_assume_lt(self, a):
        self.assume(lt(a[0], a[1]))

    def x_vx_assume_le(self, a):
        self.assume(le(a[0], a[1]))

    def x_vx_assume_eq(self, a):
        self.assume(eq(a[0], a[1]))

    def x_vx_assume_ne(self, a):
        self.assume(b_not(eq(a[0], a[1])))

    def tr(self, kind, msg, *vals):
        if self.concrete is not None:
            self.trace.append((kind, msg, [feval(v, {}) if type(v) is P else tofloat(v) for v in vals]))

    def x_vx_check(self, a):
        msg = self.cstr(a[1])
        self.tr("c", msg, Fraction(a[0]) if type(a[0]) is int else F0)
        if self.concrete is not None:
            return
        self.check(a[0], msg)

    def bad(self, v, msg):
        """inf/nan reached an assertion"""
        return any(type(x) is float for x in v)

    def x_vx_check_eq(self, a):
        x, y = a[0], a[1]
        msg = self.cstr(a[2])
        self.tr("eq", msg, x, y)
        if self.concrete is not None:
            return
        if self.bad((x, y), msg):
            return self.check(1 if (type(x) is float and type(y) is float and (x == y)) else 0, msg + " [inf/nan]")
        d = prune(sub(x, y), x, y)
        if type(d) is Fraction:
            if d == 0 and type(x) is P and type(y) is P and len(x.t) + len(y.t) < 4000:
                self.eqbatch.append((x, y))
            return self.check(1 if close0(d, x, y) else 0, msg)
        alts = []
        b = cmp0("eq", d)
        for g in MARGINS:
            alts.append(b_or(lt(g, d), lt(d, -g)))
        self.check(b, msg, alts)

    def x_vx_check_le(self, a):
        x, y = a[0], a[1]
        msg = self.cstr(a[2])
        self.tr("le", msg, x, y)
        if self.concrete is not None:
            return
        if self.bad((x, y), msg):
            return self.check(1 if tofloat(x) <= tofloat(y) else 0, msg + " [inf/nan]")
        d = sub(x, y)
        if type(d) is Fraction:
            return self.check(1 if d <= 0 or close0(d, x, y) else 0, msg)
        self.check(cmp0("le", d), msg, [lt(g, d) for g in MARGINS])

    def x_vx_check_lt(self, a):
        x, y = a[0], a[1]
        msg = self.cstr(a[2])
        self.tr("lt", msg, x, y)
        if self.concrete is not None:
            return
        if self.bad((x, y), msg):
            return self.check(1 if tofloat(x) < tofloat(y) else 0, msg + " [inf/nan]")
        d = sub(x, y)
        if type(d) is Fraction:
            return self.check(1 if d < 0 else 0, msg)
        self.check(cmp0("lt", d), msg, [lt(g, d) for g in MARGINS])

    def x_vx_check_eqi(self, a):
        msg = self.cstr(a[2])
        self.tr("eqi", msg, Fraction(a[0]), Fraction(a[1]))
        if self.concrete is not None:
            return
        self.check(1 if a[0] == a[1] else 0, msg)

    def x_vx_flag(self, a):
        self.flags[self.cstr(a[0])] = a[1]

    def x_vx_rand(self, a):
        """rand() returns any of: 0, mid, max (argument: how many of them)"""
        self.flags["rand"] = [0, 2147483647, 1073741824, 536870912][:a[0]]

    def x_vx_symbolic(self, a):
        return 1

    def x_vx_print(self, a):
        if self.cfg.get("debug"):
            print("VX", self.cstr(a[0]), pstr(a[1], 40) if type(a[1]) is P else a[1])

    def x_vx_file(self, a):
        self.fs[self.cstr(a[0])] = [(1, c) for c in self.cstr(a[1]).encode("latin1")]

    def x_vx_file_exists(self, a):
        return 1 if self.cstr(a[0]) in self.fs else 0

    def x_vx_num(self, a):
        """text token standing for the numeral of a symbolic double (understood by atof)"""
        v = a[1]
        if type(v) is P:
            k = len(self.symnums)
            self.symnums[k] = v
            s = f"\x01{k}\x01"
        else:
            s = repr(tofloat(v))
        self.wstr(a[0], s)
        return len(s)

    def x_vx_objsize(self, a):
        o = self.getobj(a[0])
        return -1 if o is None or not o.alive else o.base + o.size - a[0]

    def x_vx_heap_live(self, a):
        return sum(1 for o in self.objs.values() if o.kind == "heap" and o.alive)

    def x_vx_writable(self, a):
        return 1


def prune(d, x, y):
    """drop terms whose coefficient is rounding noise of decimal constants (relative 1e-12)"""
    if type(d) is not P:
        return d
    tx, ty = terms(x), terms(y)
    t = {}
    for m, c in d.t.items():
        ref = max(abs(tx.get(m, F0)), abs(ty.get(m, F0)))
        if ref and abs(c) * 10 ** 12 <= ref:
            continue
        t[m] = c
    return d if len(t) == len(d.t) else norm(t)


def close0(d, x, y):
    if d == 0:
        return True
    s = max(abs(tofloat(x)) if type(x) is not P else 0, abs(tofloat(y)) if type(y) is not P else 0)
    return abs(float(d)) <= 1e-11 * (s + 1e-300)


import math as _m


def _h5(M, o):
    o.zero.append((o.base, o.base + o.size))
