"""Compile LLVM IR functions into Python closures over a register list (one closure per basic block)."""
import re
from llir import *

INTR_SKIP = ("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stacksave", "llvm.stackrestore", "llvm.experimental.noalias")
PATTR = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext",
         "returned", "inreg", "immarg", "nofree", "nest", "swiftself", "noreturn", "allocptr", "captures", "dead_on_unwind", "writable", "swifterror", "swiftasync", "allocalign", "nofpclass", "initializes", "noext", "range", "nosync"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg", "volatile", "tail", "musttail", "notail", "atomic", "nusw"}


class Func:
    __slots__ = ("name", "mod", "params", "nregs", "blocks", "internal", "ninstr", "vararg", "trackret")


def skip_pattrs(k):
    """skip parameter attributes; returns byval/sret info"""
    info = None
    while True:
        t = k.peek()
        if t in PATTR:
            k.next()
            if k.peek() == "(":
                d = 0
                while True:
                    x = k.next()
                    d += x == "("
                    d -= x == ")"
                    if d == 0:
                        break
        elif t in ("align", "dereferenceable", "dereferenceable_or_null", "alignstack"):
            k.next()
            if k.peek() == "(":
                k.next(); k.next(); k.next()
            else:
                k.next()
        elif t in ("byval", "sret", "elementtype", "byref", "inalloca", "preallocated"):
            k.next()
            k.expect("(")
            ty = k.mod.ty(k)
            k.expect(")")
            if t in ("byval", "sret"):
                info = (t, ty)
        else:
            return info


class Gen:
    def __init__(self, mod, name, M):
        self.mod = mod
        self.M = M
        internal, head, body = mod.funcs[name]
        self.name = name
        self.regs = {}
        self.consts = {}
        self.env = {}
        k = self.toks(head)
        while k.peek() != "@" + name:
            k.next()
        k.next()
        k.expect("(")
        self.params = []
        self.vararg = False
        unn = 0
        while k.peek() != ")":
            if k.peek() == "...":
                k.next()
                self.vararg = True
                continue
            t = mod.ty(k)
            info = skip_pattrs(k)
            if k.peek() and k.peek()[0] == "%":
                nm = k.next()
            else:
                nm = f"%{unn}"
            unn += 1
            self.params.append((self.reg(nm), t, info))
            if k.peek() == ",":
                k.next()
        # blocks
        self.blocks = []
        self.bidx = {}
        cur = []
        label = None
        first = True
        pend = None
        for l in body:
            if not l:
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                if not first or cur:
                    self.blocks.append((label, cur))
                label = "%" + m.group(1)
                cur = []
                first = False
                continue
            if pend is not None:
                pend += " " + l.strip()
                if l.strip().startswith("]"):
                    cur.append(pend)
                    pend = None
                continue
            s = l.strip()
            if label is None and first:
                label = "%ENTRY"
                first = False
            if s.startswith("switch") and "]" not in s:
                pend = s
                continue
            cur.append(s)
        self.blocks.append((label, cur))
        if self.blocks[0][0] == "%ENTRY":
            # numbered entry label: count of unnamed params
            self.bidx[f"%{unn}"] = 0
        for i, (lb, _) in enumerate(self.blocks):
            self.bidx[lb] = i
        # phis: (pred, succ) -> [(reg, valexpr)]
        self.edges = {}
        self.code = []
        for i, (lb, ins) in enumerate(self.blocks):
            for s in ins:
                m = re.match(r'(%\S+) = phi ', s)
                if not m:
                    break
                self.phi(i, s)
        self.ninstr = sum(len(b[1]) for b in self.blocks)
        src = []
        for i, (lb, ins) in enumerate(self.blocks):
            src.append(f"def b{i}(R):")
            self.out = []
            self.cur = i
            for s in ins:
                if " = phi " in s:
                    continue
                self.ins(s)
            src += ["    " + x for x in self.out]
        txt = "\n".join(src)
        g = dict(M.ns)
        g.update(self.env)
        exec(compile(txt, f"<{name}>", "exec"), g)
        f = Func()
        f.name = name
        f.mod = mod
        f.params = [(r, (mod.sizeof(info[1]) if info and info[0] == "byval" else 0)) for r, t, info in self.params]
        f.nregs = len(self.regs) + 1
        f.blocks = [g[f"b{i}"] for i in range(len(self.blocks))]
        f.internal = internal
        f.ninstr = self.ninstr
        f.vararg = self.vararg
        self.f = f

    def toks(self, s):
        # cut metadata
        k = Toks(tokenize(s))
        k.mod = self.mod
        return k

    def reg(self, n):
        r = self.regs.get(n)
        if r is None:
            r = self.regs[n] = len(self.regs)
        return r

    def const(self, v):
        if type(v) is int:
            return repr(v)
        n = f"K{len(self.env)}"
        self.env[n] = v
        return n

    # operands ------------------------------------------------------------
    def val(self, k, t):
        """parse operand of type t, return python expr string"""
        x = k.next()
        if x[0] == "%":
            return f"R[{self.reg(x)}]"
        t = self.mod.resolve(t)
        if x == "true":
            return "1"
        if x == "false":
            return "0"
        if x == "null":
            return "0"
        if x in ("undef", "poison"):
            if t in ("double", "float"):
                return "undef_()"
            if x == "undef" and t in ("i32", "i64"):
                return "-16843010" if t == "i32" else "-72340172838076674"
            if type(t) is tuple:
                return self.const(tuple(self.zero(e) for e in (t[1] if t[0] == "s" else [t[2]] * t[1])))
            return "0"
        if x == "zeroinitializer":
            return self.const(self.zero(t))
        if t in ("double", "float"):
            return self.const(fconst(x))
        if x[0] == "@":
            return repr(self.M.gaddr(self.mod, x[1:]))
        if re.fullmatch(r"-?\d+", x):
            v = int(x)
            if type(t) is str and t[0] == "i":
                b = int(t[1:])
                if b > 1 and v >= 1 << (b - 1):
                    v -= 1 << b
            return repr(v)
        k.i -= 1
        return repr(self.M.constexpr(self.mod, k, t))

    def zero(self, t):
        t = self.mod.resolve(t)
        if t in ("double", "float"):
            return Fraction(0)
        if type(t) is tuple:
            return tuple(self.zero(e) for e in (t[1] if t[0] == "s" else [t[2]] * t[1]))
        return 0

    def tval(self, k):
        t = self.mod.ty(k)
        skip_pattrs(k)
        return t, self.val(k, t)

    def phi(self, i, s):
        k = self.toks(s)
        d = self.reg(k.next())
        k.expect("=")
        k.next()
        while k.peek() in FLAGS:
            k.next()
        t = self.mod.ty(k)
        while k.peek() == "[":
            k.next()
            v = self.val(k, t)
            k.expect(",")
            lb = k.next()
            k.expect("]")
            self.edges.setdefault((lb, i), []).append((d, v))
            if k.peek() == ",":
                k.next()

    def goto(self, lb, ind=""):
        i = self.bidx[lb]
        mine = [l for l, j in self.bidx.items() if j == self.cur]
        ps = None
        for l in mine:
            ps = self.edges.get((l, i))
            if ps:
                break
        if not ps and any(j == i for _, j in self.edges):
            raise SyntaxError(f"no phi value for {mine} -> {lb}")
        if ps:
            if len(ps) == 1:
                self.out.append(f"{ind}R[{ps[0][0]}]={ps[0][1]}")
            else:
                self.out.append(ind + ",".join(f"R[{d}]" for d, _ in ps) + "=" + ",".join(v for _, v in ps))
        self.out.append(f"{ind}return {i}")

    # instructions ---------------------------------------------------------
    def ins(self, s):
        k = self.toks(s)
        d = None
        if k.peek(1) == "=" and k.peek()[0] == "%":
            d = f"R[{self.reg(k.next())}]"
            k.next()
        op = k.next()
        nsw = False
        while op in FLAGS:
            op = k.next()
        while k.peek() in FLAGS:
            f = k.next()
            if f in ("nsw", "nuw"):
                nsw = True
        o = self.out
        mod = self.mod
        if op == "getelementptr":
            t = mod.ty(k)
            k.expect(",")
            _, base = self.tval(k)
            off = 0
            terms = []
            cur = t
            n = 0
            while k.peek() == ",":
                k.next()
                if k.peek() and k.peek()[0] == "!":
                    break
                it, iv = self.tval(k)
                if n == 0:
                    sz = mod.sizeof(cur)
                else:
                    r = mod.resolve(cur)
                    if r[0] == "s":
                        fo, cur = mod.fieldoff(r, int(iv))
                        off += fo
                        n += 1
                        continue
                    sz = mod.sizeof(r[2])
                    cur = r[2]
                n += 1
                if re.fullmatch(r"-?\d+", iv):
                    off += sz * int(iv)
                else:
                    terms.append(iv if sz == 1 else f"{iv}*{sz}")
            e = "+".join([base] + terms)
            if off:
                e += f"+{off}" if off > 0 else f"{off}"
            o.append(f"{d}={e}")
        elif op == "load":
            t = mod.ty(k)
            k.expect(",")
            _, p = self.tval(k)
            t = mod.resolve(t)
            if self.M.track and type(t) is not tuple:
                o.append(f"if PAR[0]: RS({p},0)")
            if t == "double":
                o.append(f"c=mem.get({p})")
                o.append(f"{d}=c[1] if c is not None and c[0]=='d' else ld_slow({p},'d')")
            elif t == "float":
                o.append(f"{d}=ld({p},'f')")
            elif type(t) is tuple:
                o.append(f"{d}=ld_agg({p},{self.const((mod, t))})")
            else:
                sz = mod.sizeof(t)
                o.append(f"c=mem.get({p})")
                o.append(f"{d}=c[1] if c is not None and c[0]=={sz} else ld_slow({p},{sz})")
        elif op == "store":
            t, v = self.tval(k)
            k.expect(",")
            _, p = self.tval(k)
            t = mod.resolve(t)
            if type(t) is tuple:
                o.append(f"st_agg({p},{v},{self.const((mod, t))})")
            else:
                tag = "'d'" if t == "double" else "'f'" if t == "float" else mod.sizeof(t)
                if t == "i1":
                    v = f"b2i({v})"
                o.append(f"c=mem.get({p})")
                o.append(f"if c is not None and c[0]=={tag}: mem[{p}]=({tag},{v})")
                o.append(f"else: st_slow({p},{tag},{v})")
                if self.M.track:
                    o.append(f"if PAR[0]: WS({p},{tag})")
        elif op in ("add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            t, a = self.tval(k)
            k.expect(",")
            b = self.val(k, t)
            n = int(t[1:])
            m = (1 << n) - 1
            h = 1 << (n - 1)
            if t == "i1":
                if op == "and":
                    o.append(f"{d}=b_and({a},{b})")
                elif op == "or":
                    o.append(f"{d}=b_or({a},{b})")
                elif op in ("xor", "add", "sub"):
                    o.append(f"{d}=b_xor({a},{b})")
                else:
                    raise SyntaxError("i1 " + op)
                return
            if op in ("add", "sub", "mul"):
                c = {"add": "+", "sub": "-", "mul": "*"}[op]
                if nsw:
                    o.append(f"{d}={a}{c}({b})")
                else:
                    o.append(f"{d}=((({a}{c}({b}))+{h})&{m})-{h}")
            elif op in ("and", "or", "xor"):
                c = {"and": "&", "or": "|", "xor": "^"}[op]
                o.append(f"{d}={a}{c}({b})")
            elif op == "sdiv":
                o.append(f"{d}=cdiv({a},{b})")
            elif op == "srem":
                o.append(f"{d}=crem({a},{b})")
            elif op == "udiv":
                o.append(f"{d}=((({a}&{m})//({b}&{m}))+{h}&{m})-{h}")
            elif op == "urem":
                o.append(f"{d}=((({a}&{m})%({b}&{m}))+{h}&{m})-{h}")
            elif op == "shl":
                o.append(f"{d}=((({a}<<({b}))+{h})&{m})-{h}")
            elif op == "lshr":
                o.append(f"{d}=((({a}&{m})>>({b}))+{h}&{m})-{h}")
            elif op == "ashr":
                o.append(f"{d}={a}>>({b})")
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            t, a = self.tval(k)
            k.expect(",")
            b = self.val(k, t)
            o.append(f"{d}={op}({a},{b})")
        elif op == "fneg":
            t, a = self.tval(k)
            o.append(f"{d}=neg({a})")
        elif op == "icmp":
            pr = k.next()
            t, a = self.tval(k)
            k.expect(",")
            b = self.val(k, t)
            if t == "i1":
                o.append(f"{d}=icmp1('{pr}',{a},{b})")
                return
            if pr[0] == "u" and t != "ptr":
                m = (1 << int(t[1:])) - 1
                a, b = f"({a}&{m})", f"({b}&{m})"
            c = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">=",
                 "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[pr]
            o.append(f"{d}=1 if {a}{c}{b} else 0")
        elif op == "fcmp":
            pr = k.next()
            t, a = self.tval(k)
            k.expect(",")
            b = self.val(k, t)
            o.append(f"{d}=fcmp_{pr}({a},{b})")
        elif op == "select":
            t0, c = self.tval(k)
            k.expect(",")
            t, a = self.tval(k)
            k.expect(",")
            _, b = self.tval(k)
            if t in ("double", "float"):
                o.append(f"{d}=fselect({c},{a},{b})")
            elif t == "i1":
                o.append(f"{d}=bselect({c},{a},{b})")
            else:
                o.append(f"c={c}")
                o.append(f"if type(c) is B: c=fork(c)")
                o.append(f"{d}={a} if c else {b}")
        elif op == "br":
            if k.peek() == "label":
                k.next()
                self.goto(k.next())
            else:
                _, c = self.tval(k)
                k.expect(",")
                k.expect("label")
                l1 = k.next()
                k.expect(",")
                k.expect("label")
                l2 = k.next()
                o.append(f"c={c}")
                o.append(f"if type(c) is B: c=fork(c)")
                o.append("if c:")
                self.goto(l1, "    ")
                self.goto(l2)
        elif op == "switch":
            t, v = self.tval(k)
            k.expect(",")
            k.expect("label")
            dl = k.next()
            k.expect("[")
            o.append(f"c={v}")
            while k.peek() != "]":
                _, cv = self.tval(k)
                k.expect(",")
                k.expect("label")
                l = k.next()
                o.append(f"if c=={cv}:")
                self.goto(l, "    ")
            self.goto(dl)
        elif op == "ret":
            if k.peek() == "void":
                o.append("return -1")
            else:
                t, v = self.tval(k)
                o.append(f"R[-1]={v}")
                o.append("return -1")
        elif op == "unreachable":
            o.append("return unreachable()")
        elif op == "alloca":
            t = mod.ty(k)
            n = "1"
            if k.peek() == ",":
                k.next()
                if k.peek() != "align":
                    _, n = self.tval(k)
            o.append(f"{d}=alloca({mod.sizeof(t)}*{n})")
        elif op == "call":
            self.call(k, d)
        elif op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "freeze", "addrspacecast"):
            t, a = self.tval(k)
            t2 = None
            if k.peek() == "to":
                k.next()
                t2 = mod.ty(k)
            if op == "sext":
                o.append(f"{d}={a}" if t != "i1" else f"{d}=-b2i({a})")
            elif op == "zext":
                o.append(f"{d}=b2i({a})" if t == "i1" else f"{d}={a}&{(1 << int(t[1:])) - 1}")
            elif op == "trunc":
                n = int(t2[1:])
                if n == 1:
                    o.append(f"{d}={a}&1")
                else:
                    o.append(f"{d}=((({a})+{1 << (n - 1)})&{(1 << n) - 1})-{1 << (n - 1)}")
            elif op == "fptrunc" or op == "fpext" or op in ("ptrtoint", "inttoptr", "freeze", "addrspacecast"):
                o.append(f"{d}={a}")
            elif op == "bitcast":
                if (t in ("double", "float")) != (t2 in ("double", "float")):
                    o.append(f"{d}=fbitcast({a},'{t}','{t2}')")
                else:
                    o.append(f"{d}={a}")
            elif op == "sitofp":
                o.append(f"{d}=itof({a})")
            elif op == "uitofp":
                o.append(f"{d}=itof(b2i({a})&{(1 << int(t[1:])) - 1})")
            elif op in ("fptosi", "fptoui"):
                o.append(f"{d}=ftoi({a},{int(t2[1:])})")
        elif op == "extractvalue":
            t, a = self.tval(k)
            e = a
            while k.peek() == ",":
                k.next()
                e += f"[{k.next()}]"
            o.append(f"{d}={e}")
        elif op == "insertvalue":
            t, a = self.tval(k)
            k.expect(",")
            _, v = self.tval(k)
            k.expect(",")
            i = k.next()
            o.append(f"{d}=tuple({v} if i=={i} else x for i,x in enumerate({a}))" if False else f"{d}=insertv({a},{v},{i})")
        elif op == "atomicrmw":
            while k.peek() in ("volatile",):
                k.next()
            rop = k.next()
            _, p = self.tval(k)
            k.expect(",")
            t, v = self.tval(k)
            o.append(f"{d}=atomicrmw('{rop}',{p},{v},{mod.sizeof(t)!r},{t in ('double','float')})")
        elif op == "cmpxchg":
            while k.peek() in ("weak", "volatile"):
                k.next()
            _, p = self.tval(k)
            k.expect(",")
            t, c = self.tval(k)
            k.expect(",")
            _, v = self.tval(k)
            o.append(f"{d}=cmpxchg({p},{c},{v},{mod.sizeof(t)})")
        elif op == "fence":
            pass
        else:
            raise SyntaxError(f"instr {op}: {s}")
        if not o:
            o.append("pass")

    def call(self, k, d):
        mod = self.mod
        while k.peek() in PATTR or k.peek() in FLAGS or k.peek() in ("align", "dereferenceable", "ccc", "fastcc", "dereferenceable_or_null"):
            if k.peek() in FLAGS or k.peek() in ("ccc", "fastcc"):
                k.next()
            else:
                skip_pattrs(k)
        rt = mod.ty(k)
        if type(rt) is tuple and rt[0] == "f":
            rt = rt[1]
        callee = k.next()
        k.expect("(")
        args = []
        while k.peek() != ")":
            if k.peek() == "metadata":
                self.out.append("pass")
                return
            t = mod.ty(k)
            info = skip_pattrs(k)
            v = self.val(k, t)
            args.append(v)
            if k.peek() == ",":
                k.next()
        a = "(" + ",".join(args) + ("," if args else "") + ")"
        pre = f"{d}=" if d else ""
        if callee[0] == "%":
            self.out.append(f"{pre}call_ptr(R[{self.reg(callee)}],{a})")
            return
        name = callee[1:]
        if name.startswith(INTR_SKIP):
            self.out.append(f"{pre}0" if d else "pass")
            return
        n = f"F{len(self.env)}"
        self.env[n] = FRef(self.M, mod, name)
        self.out.append(f"{pre}{n}{a}" if False else f"{pre}{n}({a})")


class FRef:
    __slots__ = ("M", "mod", "name", "t")

    def __init__(self, M, mod, name):
        self.M = M
        self.mod = mod
        self.name = name
        self.t = None

    def __call__(self, args):
        t = self.t
        if t is None:
            t = self.t = self.M.resolve_call(self.mod, self.name)
        return t(args)
