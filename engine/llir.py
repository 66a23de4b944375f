"""LLVM IR (textual, LLVM 18, opaque pointers) parser: types, layouts, globals, functions (lazy)."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"])*")|
 (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<md>![-a-zA-Z$._0-9]*(?:\([^)]*\))?)|
 (?P<attr>\#\d+)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|
 (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|
 (?P<dots>\.\.\.)|
 (?P<quoted>"[^"]*")|
 (?P<p>[\[\]{}()<>,=*:])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise SyntaxError(f"token: {s[i:i+40]!r}")
        i = m.end()
        out.append(m.group().strip())
    return out


# ---- types: 'void','double','float','ptr','iN' strings; ('a',n,T); ('s',(T..),packed); ('n',name)
class Mod:
    def __init__(self, path, idx):
        self.path = path
        self.idx = idx
        self.types = {}
        self.globals = {}      # name -> (linkage_internal, type, init tokens or None)
        self.funcs = {}        # name -> (internal, header line, body lines)
        self.layout = {}
        self.parse()

    def parse(self):
        f = open(self.path).read().split("\n")
        i, n = 0, len(f)
        while i < n:
            l = f[i]
            if l.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', l)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                self.parse_global(l)
            elif l.startswith("define"):
                j = i + 1
                while f[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                internal = bool(re.match(r'define (internal|private) ', l))
                self.funcs[m.group(1)] = (internal, l, f[i + 1:j])
                i = j
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', l)
        name, rest = m.group(1), m.group(2)
        internal = rest.startswith(("private", "internal"))
        m = re.search(r'\b(global|constant) ', rest)
        if not m:
            return
        ext = " external " in " " + rest[:m.start()] + " " or "extern_weak" in rest[:m.start()]
        toks = Toks(tokenize(rest[m.end():]))
        t = self.ty(toks)
        self.globals[name] = (internal, t, None if ext else toks.t[toks.i:])

    # -- types
    def ty(self, k):
        t = k.next()
        if t[0] == "%":
            r = ("n", t)
        elif t == "[":
            n = int(k.next())
            assert k.next() == "x"
            e = self.ty(k)
            k.expect("]")
            r = ("a", n, e)
        elif t == "{" or (t == "<" and k.peek() == "{"):
            packed = t == "<"
            if packed:
                k.next()
            es = []
            while k.peek() != "}":
                es.append(self.ty(k))
                if k.peek() == ",":
                    k.next()
            k.next()
            if packed:
                k.expect(">")
            r = ("s", tuple(es), packed)
        elif t == "<":
            n = int(k.next())
            k.next()
            e = self.ty(k)
            k.expect(">")
            r = ("v", n, e)
        else:
            r = t
        while k.peek() == "(":     # function type
            d = 0
            while True:
                x = k.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
            r = ("f", r)
        return r

    def resolve(self, t):
        while type(t) is tuple and t[0] == "n":
            d = self.types[t[1]]
            if type(d) is str:
                if d == "opaque":
                    d = ("s", (), False)
                else:
                    d = self.ty(Toks(tokenize(d)))
                self.types[t[1]] = d
            t = d
        return t

    def size_align(self, t):
        r = self.layout.get(t)
        if r:
            return r
        if type(t) is str:
            if t == "ptr" or t == "double":
                r = (8, 8)
            elif t == "float":
                r = (4, 4)
            elif t == "x86_fp80":
                r = (16, 16)
            elif t[0] == "i":
                b = int(t[1:])
                s = max(1, (b + 7) // 8)
                s = 1 << (s - 1).bit_length()
                r = (s, min(s, 16))
            else:
                raise SyntaxError(f"type {t}")
        elif t[0] == "n":
            r = self.size_align(self.resolve(t))
        elif t[0] == "a":
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif t[0] == "v":
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif t[0] == "s":
            off, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise SyntaxError(f"size of {t}")
        self.layout[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def fieldoff(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError

    def flatten(self, t, off=0):
        """list of (offset, scalar type)"""
        t = self.resolve(t)
        if type(t) is str:
            return [(off, t)]
        out = []
        if t[0] == "a":
            s = self.sizeof(t[2])
            for i in range(t[1]):
                out += self.flatten(t[2], off + i * s)
        elif t[0] == "s":
            for i in range(len(t[1])):
                o, e = self.fieldoff(t, i)
                out += self.flatten(e, off + o)
        return out


class Toks:
    def __init__(self, t):
        self.t = t
        self.i = 0

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, s):
        x = self.next()
        if x != s:
            raise SyntaxError(f"expected {s} got {x} in {' '.join(self.t)}")


def fconst(tok, ty="double"):
    """double literal -> Fraction (rationalised) or float for inf/nan"""
    if tok.startswith("0x"):
        h = tok[2:]
        if h[0] in "KLMHR":
            raise SyntaxError("fp80/half constant")
        x = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    else:
        x = float(tok)
    return ratfloat(x)


def ratfloat(x):
    if x != x or x in (float("inf"), float("-inf")):
        return x
    fr = Fraction(x)
    if fr.denominator <= 1 << 20:
        return fr
    # decimal literal the programmer most plausibly wrote
    d = Fraction(repr(x))
    if float(d) == x and len(repr(x).replace("-", "").replace(".", "").split("e")[0].strip("0")) <= 12:
        return d
    for lim in (64, 1000, 20000):
        g = fr.limit_denominator(lim)
        if g != 0 and float(g) == x:
            return g
    return d if float(d) == x else fr
