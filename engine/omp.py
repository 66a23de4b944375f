"""OpenMP regions (clang's __kmpc interface): every thread of a team is executed in turn, every access to memory that existed
before the region is logged, and two accesses by different threads of the same phase, one of them a write, that no lock orders
are a data race.  Team size: cfg["omp"]."""
from libc import *
from rt import PathEnd, Unsupported, SH
from expr import P, B


class OmpMachine(LibMachine):
    def resetpath(self):
        super().resetpath()
        self.reg = None
        self.teamsize = self.cfg.get("omp", 1) or 1
        self.pushed = None
        if "PAR" in self.ns:
            self.ns["PAR"][0] = 0

    def mkns(self):
        super().mkns()
        self.ns["PAR"] = [0]

        def acc(w):
            def f(p, tag):
                r = self.reg
                if p >> SH >= r["first"]:
                    return
                k = (r["phase"], p)
                s = r["log"].get(k)
                if s is None:
                    s = r["log"][k] = [-1, -1, -1, -1, None, 1, -1]
                if not r["lock"]:
                    if w:           # writes of one and the same value do not disturb each other
                        c = self.mem.get(p)
                        v = c[1] if c is not None else ()
                        if s[1] == -1:
                            s[4] = v
                        elif not (type(v) is type(s[4]) and (v is s[4] or (not isinstance(v, (P, B)) and v == s[4]))):
                            s[5] = 0
                        s[6] = r["tid"]
                    elif s[6] == r["tid"]:
                        return
                i = w + (2 if r["lock"] else 0)
                t = s[i]
                if t == -1:
                    s[i] = r["tid"]
                elif t != r["tid"]:
                    s[i] = -2
                if w:
                    r["fn"][k] = self.where()
            return f
        self.ns["RS"] = self.RS = acc(0)
        self.ns["WS"] = self.WS = acc(1)
        self.ns["atomicrmw"] = self.atomicrmw
        self.ns["cmpxchg"] = self.cmpxchg

    # ------------------------------------------------------------ logging of block operations
    def memcpy(self, d, s, n):
        super().memcpy(d, s, n)
        if self.reg is not None and self.ns["PAR"][0]:
            for i in range(0, n, 4):
                self.RS(s + i, 4)
                self.WS(d + i, 4)

    def memset(self, d, v, n):
        super().memset(d, v, n)
        if self.reg is not None and self.ns["PAR"][0]:
            for i in range(0, n, 4):
                self.WS(d + i, 4)

    def atomicrmw(self, op, p, v, size, isf):
        tag = ("d" if size == 8 else "f") if isf else size
        r = self.reg
        if r is not None and self.ns["PAR"][0]:
            r["lock"] += 1
            self.RS(p, tag)
            self.WS(p, tag)
            r["lock"] -= 1
        old = self.ld(p, tag)
        if op in ("fadd", "fsub"):
            new = self.ns["fadd" if op == "fadd" else "fsub"](old, v)
        elif op == "add":
            new = old + v
        elif op == "sub":
            new = old - v
        elif op == "xchg":
            new = v
        elif op in ("max", "min"):
            new = (max if op == "max" else min)(old, v)
        else:
            raise Unsupported("atomicrmw " + op)
        self.st(p, tag, new)
        return old

    def cmpxchg(self, p, c, v, size):
        r = self.reg
        if r is not None and self.ns["PAR"][0]:
            r["lock"] += 1
            self.RS(p, size)
            self.WS(p, size)
            r["lock"] -= 1
        old = self.ld(p, size)
        ok = 1 if type(old) is type(c) and old == c else 0
        if ok:
            self.st(p, size, v)
        return (old, ok)

    # ------------------------------------------------------------ regions
    def x___kmpc_fork_call(self, a):
        fn, args = a[2], tuple(a[3:])
        n = self.pushed or self.teamsize
        self.pushed = None
        if self.reg is not None:        # nested regions run in the thread that meets them
            outer = self.reg
            keep = (outer["tid"], outer["n"])
            outer["tid2"] = 0
            t = self.newobj(4, "stack", "tid")
            self.stack.append(t)
            self.st(t, 4, 0)
            nst, outer["nested"] = outer.get("nested", 0), 1
            self.call_ptr(fn, (t, t) + args)
            outer["nested"] = nst
            return 0
        P = self.ns["PAR"]
        self.reg = r = dict(tid=0, n=n, phase=0, lock=0, log={}, fn={}, first=self.nextid, flush=0)
        ts = []
        for i in range(n):
            t = self.newobj(4, "stack", "tid")
            self.stack.append(t)
            self.st(t, 4, i)
            ts.append(t)
        try:
            for i in range(n):
                r["tid"], r["phase"], r["lock"] = i, 0, 0
                r["phases"] = r.get("phases", 0)
                P[0] = 1
                self.call_ptr(fn, (ts[i], ts[i]) + args)
                P[0] = 0
                r["phases"] = max(r["phases"], r["phase"])
        finally:
            P[0] = 0
            self.reg = None
        for k, s in r["log"].items():
            rp, wp, rc, wc, _, same, _ = s
            if wp == -2 and same and rp == rc == wc == -1:
                continue
            if wp == -1 and (wc == -1 or rp == -1):
                continue
            tids = [t for t in s[:4] if t != -1]
            if wp == -1:                # written under a lock, read without
                if r["flush"] or (wc >= 0 and rp == wc):
                    continue
            elif wp >= 0 and all(t == wp for t in tids):
                continue
            o = self.getobj(k[1])
            raise PathEnd("race", (r["fn"].get(k, self.where()), o.kind if o else "?"))
        if r["phases"]:
            first = {}
            for (ph, p), s in r["log"].items():
                if s[1] != -1 or s[3] != -1:
                    first.setdefault(p, []).append((ph, s))
            for (ph, p), s in r["log"].items():
                for q, t in first.get(p, ()):
                    if q < ph:
                        ws = {x for x in (t[1], t[3]) if x != -1}
                        us = {x for x in s[:4] if x != -1}
                        if ws != us or -2 in ws:
                            raise Unsupported("data handed from thread to thread at a barrier")
        return 0

    def tid(self):
        return self.reg["tid"] if self.reg and not self.reg.get("nested") else 0

    def nth(self):
        return self.reg["n"] if self.reg and not self.reg.get("nested") else 1

    def x_omp_get_thread_num(self, a):
        return self.tid()

    def x_omp_get_num_threads(self, a):
        return self.nth()

    def x_omp_get_max_threads(self, a):
        return self.teamsize

    def x_omp_get_num_procs(self, a):
        return self.teamsize

    def x_omp_set_num_threads(self, a):
        self.teamsize = a[0]
        return 0

    def x_omp_in_parallel(self, a):
        return 1 if self.reg else 0

    def x___kmpc_global_thread_num(self, a):
        return self.tid()

    def x___kmpc_push_num_threads(self, a):
        self.pushed = a[2]
        return 0

    def part(self, lo, up, inc, chunk, sched):
        """bounds of this thread: (lo, up, last) of the range lo..up (inclusive)"""
        n, t = self.nth(), self.tid()
        trip = (up - lo) // inc + 1 if (up - lo) * inc >= 0 else 0
        if trip <= 0:
            return lo, lo - inc, 0
        q, e = divmod(trip, n)
        b = t * q + min(t, e)
        c = q + (1 if t < e else 0)
        if c == 0:
            return up + inc, up, 0
        return lo + b * inc, lo + (b + c - 1) * inc, 1 if b + c == trip else 0

    def static_init(self, a, sz):
        loc, gt, sched, plast, pl, pu, ps, inc, chunk = a
        lo, up = self.ld(pl, sz), self.ld(pu, sz)
        l, u, last = self.part(lo, up, inc, chunk, sched)
        self.st(pl, sz, l)
        self.st(pu, sz, u)
        self.st(ps, sz, (abs(up - lo) + 1) * (self.nth() + 1))
        self.st(plast, 4, last)
        return 0

    def x___kmpc_for_static_init_4(self, a):
        return self.static_init(a, 4)

    def x___kmpc_for_static_init_8(self, a):
        return self.static_init(a, 8)
    x___kmpc_for_static_init_4u = x___kmpc_for_static_init_4
    x___kmpc_for_static_init_8u = x___kmpc_for_static_init_8

    def nop(self, a):
        return 0
    x___kmpc_for_static_fini = nop
    x___kmpc_serialized_parallel = nop
    x___kmpc_end_serialized_parallel = nop

    def x___kmpc_dispatch_init_4(self, a):
        loc, gt, sched, lb, ub, inc, chunk = a
        self.disp = self.part(lb, ub, inc, 0, 0)
        self.dinc = inc
        return 0
    x___kmpc_dispatch_init_8 = x___kmpc_dispatch_init_4
    x___kmpc_dispatch_init_4u = x___kmpc_dispatch_init_4

    def dispatch_next(self, a, sz):
        loc, gt, plast, pl, pu, ps = a
        d = self.disp
        if d is None or (d[1] - d[0]) * self.dinc < 0:
            return 0
        self.st(pl, sz, d[0])
        self.st(pu, sz, d[1])
        self.st(ps, sz, self.dinc)
        self.st(plast, 4, d[2])
        self.disp = None
        return 1

    def x___kmpc_dispatch_next_4(self, a):
        return self.dispatch_next(a, 4)
    x___kmpc_dispatch_next_4u = x___kmpc_dispatch_next_4

    def x___kmpc_dispatch_next_8(self, a):
        return self.dispatch_next(a, 8)

    def x___kmpc_barrier(self, a):
        if self.reg and not self.reg.get("nested"):
            self.reg["phase"] += 1
        return 0

    def lock(self, a):
        if self.reg:
            self.reg["lock"] += 1
        return 1

    def unlock(self, a):
        if self.reg:
            self.reg["lock"] -= 1
        return 0
    x___kmpc_critical = lock
    x___kmpc_end_critical = unlock
    x___kmpc_reduce_nowait = lock
    x___kmpc_end_reduce_nowait = unlock
    x___kmpc_reduce = lock
    x___kmpc_end_reduce = unlock

    def x___kmpc_flush(self, a):
        if self.reg:
            self.reg["flush"] = 1
        return 0

    def x___kmpc_master(self, a):
        return 1 if self.tid() == 0 else 0
    x___kmpc_end_master = nop

    def x___kmpc_single(self, a):
        return 1 if self.tid() == 0 else 0
    x___kmpc_end_single = nop
