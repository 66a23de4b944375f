#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of /repo's current source."""
import sys, os, json, time, subprocess, hashlib, re, shutil, glob, random, tempfile, traceback, signal
from concurrent.futures import ProcessPoolExecutor, as_completed
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
REPO = os.environ.get("VX_REPO", "/repo")
CLANG, OPT = "/usr/bin/clang-18", "/usr/bin/opt-18"
WORK = None
INC = ["-I" + REPO + "/MDLIB", "-I" + REPO + "/MDLIB/include", "-I/usr/include/suitesparse", "-I/usr/include/hdf5/serial",
       "-I" + HERE + "/harness"]
SKIP = {"omptest.c"}
OMPF = ["-fopenmp", "-D_OMP_", "-I" + HERE + "/native/omp"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources():
    return sorted(f for f in glob.glob(REPO + "/MDLIB/*.c") if os.path.basename(f) not in SKIP)


def toir(args):
    src, out, flags = args
    tmp = out + ".0.ll"
    r = sh([CLANG, "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-math-errno", "-w",
            "-std=gnu11", *flags, *INC, src, "-o", tmp])
    if r.returncode:
        return (src, r.stdout[-2000:])
    r = sh([OPT, "-S", "-passes=mem2reg,simplifycfg,instsimplify", tmp, "-o", out])
    if r.returncode:
        return (src, r.stdout[-2000:])
    os.unlink(tmp)
    return None


def load_spec(prop):
    """harness files of a property: harness/<PROP>*.c with a leading  VX { json }  comment"""
    specs = []
    for f in sorted(glob.glob(f"{HERE}/harness/{prop}_*.c") + glob.glob(f"{HERE}/harness/{prop}.c")):
        txt = open(f).read()
        m = re.search(r"/\*VX(.*?)\*/", txt, re.S)
        spec = json.loads(m.group(1)) if m else {}
        cases = re.findall(r"^void (vx_case_\w+)\(void\)", txt, re.M)
        for c in cases:
            cfg = dict(spec.get("default", {}))
            cfg.update(spec.get(c[8:], {}))
            cfg.update(spec.get("case", {}).get(c[8:], {}))
            specs.append((f, c, cfg))
    return specs


def build_ir(prop, tier):
    specs = load_spec(prop)
    hs = sorted({f for f, c, g in specs})
    jobs = []
    ir = {}
    variants = {}
    for f, c, g in specs:
        if g.get("omp"):
            g["cflags"] = g.get("cflags", []) + OMPF
        variants.setdefault(tuple(g.get("cflags", [])), set()).add(f)
    n = 0
    for fl, files in variants.items():
        d = f"{WORK}/ir{n}"
        n += 1
        os.makedirs(d, exist_ok=True)
        lst = []
        for s in sorted(files):
            o = f"{d}/h_{os.path.basename(s)}.ll"
            jobs.append((s, o, list(fl) + ["-DVX_SYMBOLIC"]))
        base = []
        for s in sources():
            o = f"{d}/{os.path.basename(s)}.ll"
            jobs.append((s, o, list(fl)))
            base.append(o)
        for s in files:
            ir[(s, fl)] = [f"{d}/h_{os.path.basename(s)}.ll"] + base
    with ProcessPoolExecutor(8) as ex:
        errs = [e for e in ex.map(toir, jobs) if e]
    if errs:
        for e in errs:
            print("compile error:", e[0], e[1], file=sys.stderr)
        sys.exit(2)
    return specs, ir


# ------------------------------------------------------------------ one case
def mkmachine(irs, cfg):
    from llir import Mod
    from libc import LibMachine
    import omp
    mods = [Mod(p, i) for i, p in enumerate(irs)]
    M = omp.OmpMachine(mods, cfg)
    return M


def explore(M, case, budget):
    from rt import PathEnd, Unsupported
    import smt
    sys.setrecursionlimit(20000)
    t0 = time.time()
    M.trail = []
    incomplete = None
    reached = 0
    pathsat = 0
    opens = []
    normq = 0
    ends = {}
    divz = {}
    known_mem = {}
    maxp = M.cfg.get("max_paths", 4000)
    M.deadline = t0 + budget
    while True:
        M.resetpath()
        M.cur = 0
        end = "ok"
        try:
            M.run(case)
        except PathEnd as e:
            end = e.kind
            if e.kind == "exit":
                M.stat["exits"] += 1
                if M.flags.get("exit_is_violation"):
                    r, m = smt.solve(list(M.pc), M.check_to, "path-sat")
                    if r == "sat":
                        M.violations.append(dict(msg="the run is aborted (exit called in %s)" % M.where(), inputs=list(M.inputs), models=[m], pc=list(M.pc), kind="exit"))
            elif e.kind == "memerr":
                r, m = smt.solve(list(M.pc), M.check_to, "path-sat")
                if r == "sat":
                    M.violations.append(dict(msg=e.info[2], inputs=list(M.inputs), models=[m], pc=list(M.pc), kind="mem", fn=e.info[1], what=e.info[0]))
            elif e.kind == "race":
                r, m = smt.solve(list(M.pc), M.check_to, "path-sat")
                if r == "sat":
                    M.violations.append(dict(msg=f"data race between threads in {e.info[0]}", inputs=list(M.inputs), models=[m], pc=list(M.pc), kind="race"))
            elif e.kind == "div0":
                divz[e.info] = divz.get(e.info, 0) + 1
                if M.flags.get("div0_is_violation"):
                    r, m = smt.solve(list(M.pc), M.check_to, "path-sat")
                    if r == "sat":
                        M.violations.append(dict(msg=f"division by zero in {e.info}", inputs=list(M.inputs), models=[m], pc=list(M.pc), kind="div0"))
            elif e.kind == "timeout":
                incomplete = "time budget"
        except Unsupported as e:
            end = "unsupported"
            incomplete = f"unsupported: {e} in {M.where()}"
        if end in ("unsupported", "timeout") and len(opens) < 4:
            # the path leaves the encoding: keep a solver witness of it and let the real code finish it (see follow)
            r, m = smt.solve(list(M.pc), M.check_to, "open-path")
            if r == "sat":
                opens.append(dict(msg=incomplete, inputs=list(M.inputs), models=[m], pc=list(M.pc), kind="open"))
        ends[end] = ends.get(end, 0) + 1
        M.stat["paths"] += 1
        M.stat["blocks"] += M.nblocks
        if M.eqbatch and normq < 50:
            normq += 1
            smt.identities(M.eqbatch, M.check_to)
        if M.checks_here:
            reached += 1
            if pathsat < 3 and end == "ok":
                r, m = smt.solve(list(M.pc), M.check_to, "vacuity")
                if r == "sat":
                    pathsat += 1
        if len(M.violations) >= M.cfg.get("max_violations", 6) or incomplete == "time budget":
            break
        # backtrack
        tr = M.trail[:M.cur] if M.cur <= len(M.trail) else M.trail
        M.trail = tr
        while M.trail:
            v, alt = M.trail[-1]
            if alt is None:
                M.trail.pop()
                continue
            if type(alt) is list:
                M.trail[-1] = (alt[0], alt[1:] or None)
            else:
                M.trail[-1] = (alt, None)
            break
        if not M.trail:
            break
        if M.stat["paths"] >= maxp:
            incomplete = f"path limit {maxp}"
            break
        if time.time() - t0 > budget:
            incomplete = "time budget"
            break
    return dict(opens=opens, incomplete=incomplete, reached=reached, vacuity_sat=pathsat, ends=ends, div0=divz, wall=time.time() - t0)


def run_case(a):
    f, case, cfg, irs, tier, seed = a
    try:
        import smt, random as _r
        import expr
        expr.EXPAND_LIMIT = cfg.get("expand_limit", 600)
        M = mkmachine(irs, cfg)
        budget = cfg.get("budget", 240) if tier == "quick" else cfg.get("budget_thorough", 1500)
        info = explore(M, case, budget)
        viol = []
        nv = len(M.violations)
        for v in M.violations + info.pop("opens"):
            cands = []
            for m in v["models"]:
                vals = []
                for nm, x in v["inputs"]:
                    if type(x) in (int, Fraction):
                        vals.append((nm, str(float(x)) if type(x) is Fraction else str(x)))
                    elif nm in m:
                        vals.append((nm, repr(float(m[nm]))))
                cands.append(vals)
            viol.append(dict(msg=v["msg"], kind=v["kind"], cands=cands, fn=v.get("fn"), what=v.get("what"),
                             pc=[repr(c)[:200] for c in v["pc"][-8:]]))
        info.update(file=f, case=case, violations=viol[:nv], opens=viol[nv:], stat=M.stat, unknown=M.unknowns[:20],
                    functions={k: n for k, n in M.executed.items() if not k.startswith("vx_case") and k in M.gtab and os.path.basename(M.gtab[k].path)[:2] != "h_"},
                    smt=dict(queries=smt.STATS.queries, sat=smt.STATS.sat, unsat=smt.STATS.unsat, unknown=smt.STATS.unknown,
                             time=smt.STATS.time, maxq=smt.STATS.maxq, kinds=smt.STATS.bykind))
        # translation validation: concrete run of the engine vs native run
        info["tv"] = concrete_traces(M, case, cfg.get("tv_runs", 2), seed)
        return info
    except Exception:
        return dict(file=f, case=case, error=traceback.format_exc())


def _child(j, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        conn.send(run_case(j))
    except BaseException:
        try:
            conn.send(dict(file=j[0], case=j[1], error=traceback.format_exc()))
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_parallel(jobs, n, deadline):
    """one fresh process per case (no state shared between cases)"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < n:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(j, b))
            p.start()
            b.close()
            live[a] = (p, j)
        for c in wait(list(live), timeout=2):
            p, j = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = dict(file=j[0], case=j[1], error="worker died")
            p.join()
            yield r
        if time.time() > deadline:
            for c, (p, j) in list(live.items()):
                p.kill()
                p.join()
                yield dict(file=j[0], case=j[1], skipped="hard time limit")
            for j in todo:
                yield dict(file=j[0], case=j[1], skipped="hard time limit")
            return


def concrete_traces(M, case, n, seed):
    """run the engine on concrete random inputs; returns [(inputs, trace)]"""
    from rt import PathEnd, Unsupported
    import random as _r
    out = []
    for k in range(n * 4):
        if len(out) >= n:
            break
        rng = _r.Random(seed * 1000 + k)

        def conc(nm, lo, hi):
            lo = Fraction(-2) if lo is None and hi is None else (hi - 4 if lo is None else lo)
            hi = lo + 4 if hi is None else hi
            return lo + (hi - lo) * Fraction(rng.randint(1, 63), 64)
        M.concrete = conc
        M.concrete_int = lambda n: rng.randrange(n)
        M.resetpath()
        M.trail = []
        M.cur = 0
        M.deadline = time.time() + 25
        try:
            M.run(case)
            end = "ok"
        except PathEnd as e:
            end = e.kind
        except (Unsupported, Exception) as e:
            end = "unsupported:" + repr(e)[:100]
        if end in ("ok",):
            out.append(([(nm, float(x)) for nm, x in M.inputs], list(M.trace)))
        if end.startswith(("timeout", "unsupp")) and k >= n:
            break
    M.concrete = None
    return out


# ------------------------------------------------------------------ native replay
LIBS = ["-lumfpack", "-lcholmod", "-lcxsparse", "-lamd", "-lcolamd", "-lhdf5_serial", "-lm"]


def libflags():
    out = []
    for l in ("umfpack", "cholmod", "cxsparse", "amd", "colamd", "camd", "ccolamd", "suitesparseconfig", "lapack", "blas"):
        out.append("-l" + l)
    return out + ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lm"]


_nat = {}


# plain, with the address sanitizer, with every unset local and heap variable filled with 0xfe bytes
NATF = {0: [], 1: ["-fsanitize=address", "-fno-omit-frame-pointer"], 2: ["-ftrivial-auto-var-init=pattern"]}


def native_objs(cflags, san):
    key = (tuple(cflags), san)
    if key in _nat:
        return _nat[key]
    d = f"{WORK}/nat{len(_nat)}"
    os.makedirs(d, exist_ok=True)
    ps = []
    objs = []
    fl = list(cflags)
    par = "-fopenmp" in fl
    S = NATF[san]
    cc = "gcc"
    if par:
        # the accesses of the real code are reported to native/vxomp.c, which also runs the teams (see engine/omp.py)
        cc, S = CLANG, {0: ["-fsanitize=thread"], 1: NATF[1], 2: ["-fsanitize=thread"] + NATF[2]}[int(san)]
    for s in sources():
        o = f"{d}/{os.path.basename(s)}.o"
        objs.append(o)
        ps.append((subprocess.Popen([cc, "-O0", "-g", "-w", "-std=gnu11", "-fno-pie", "-ffp-contract=off", *S, *fl, *INC, "-c", s, "-o", o],
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), o))
    for p, o in ps:
        if p.wait():
            return None
        sh(["objcopy", "--weaken", o])
    _nat[key] = objs
    return objs


_bins = {}


def native_bin(f, case, cfg, san=False):
    k = (f, case, san, cfg.get("omp"))
    if k in _bins:
        return _bins[k]
    cflags = cfg.get("cflags", [])
    objs = native_objs(cflags, san)
    if objs is None:
        return None
    b = f"{WORK}/bin_{case}_{int(san)}"
    S = NATF[san]
    fl = [x for x in cflags if x not in OMPF]
    par = "-fopenmp" in cflags
    r = sh(["gcc", "-O0", "-g", "-w", "-std=gnu11", "-no-pie", "-fno-pie", *S, *fl, *INC, f"-DVXCASE={case}", f, HERE + "/native/vxrt.c",
            *([HERE + "/native/vxomp.c", f"-DVXTEAM={cfg['omp']}", "-Wl,--wrap=free"] if par else []), *objs,
            "-o", b, *libflags()])
    if r.returncode:
        print("native link:", r.stdout[-1500:], file=sys.stderr)
        b = None
    _bins[k] = b
    return b


def native_run(b, vals, trace=False, timeout=60, tol=None, dirty=False):
    d = tempfile.mkdtemp(dir=WORK)
    vf = d + "/vals.txt"
    with open(vf, "w") as fh:
        for n, v in vals:
            fh.write(f"{n} {v}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", OMP_NUM_THREADS="1")
    if dirty:
        env["MALLOC_PERTURB_"] = "1"   # malloc fills with 0xfe
    if trace:
        env["VX_TRACE"] = "1"
    if tol:
        env["VX_TOL"] = str(tol)
    try:
        r = subprocess.run([b, vf], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "TIMEOUT", 124
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def confirm(v, f, case, cfg):
    """replay counterexample candidates natively; returns (confirmed, vals, output)"""
    last = ""
    for vals in v["cands"]:
        for san in ((True, False, 2) if v["kind"] == "mem" else (False, 2)):
            b = native_bin(f, case, cfg, san)
            if b is None:
                continue
            rc, out = native_run(b, vals, dirty=san == 2)
            last = out
            if rc == 66:
                ln = [l for l in out.split("\n") if l.startswith("VXFAIL")]
                return True, vals, ln[-1] if ln else out[-300:], san
            if v["kind"] == "mem" and ("AddressSanitizer" in out or rc in (-11, 139, -6, 134)):
                m = re.search(r"ERROR: AddressSanitizer: .*", out)
                return True, vals, (m.group(0) if m else f"crash rc={rc}"), san
            if rc in (-11, 139, -6, -8, 134):
                return True, vals, f"crash rc={rc}", san
    return False, (v["cands"] or [[]])[0], last[-300:], False


def follow(v, f, case, cfg):
    b = native_bin(f, case, cfg, False)
    if b is None or not v["cands"]:
        return False, ""
    rc, out = native_run(b, v["cands"][0], timeout=30)
    if rc == 66 and "unsupported" in v["msg"]:
        ln = [l for l in out.split("\n") if l.startswith("VXFAIL")]
        return True, ln[-1] if ln else out[-300:]
    if rc in (-11, 139, -6, -8, 134):
        return True, f"crash rc={rc}"
    if rc == 124:
        return True, "does not come to an end"
    return False, ""


def known_findings():
    p = HERE + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    global WORK
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv else os.environ.get("VX_TIER", "quick")
    only = None
    if "--case" in sys.argv:
        only = sys.argv[sys.argv.index("--case") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    WORK = tempfile.mkdtemp(prefix="vx_", dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 2
    try:
        rc = run(prop, tier, only, seed, t0)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, only, seed, t0):
    specs, ir = build_ir(prop, tier)
    specs = [s for s in specs if (tier == "thorough" or s[2].get("tier", "quick") == "quick") and (only is None or s[1] == only or s[1] == "vx_case_" + only)]
    if not specs:
        print("no cases for", prop)
        return 2
    t_ir = time.time() - t0
    jobs = [(f, c, dict(g, debug="--debug" in sys.argv), ir[(f, tuple(g.get("cflags", [])))], tier, seed) for f, c, g in specs]
    jobs.sort(key=lambda j: -j[2].get("weight", 1))
    cfgs = {(f, c): g for f, c, g in specs}
    res = []
    kf = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    viol_lines = []
    known_lines = []
    unconf = []
    skipped = []
    errors = []
    tvn = tvmis = 0
    repdir = f"{HERE}/replays"
    if "-j1" in sys.argv:
        results = map(run_case, jobs)
        ex = None
    else:
        ex = None
        results = run_parallel(jobs, int(os.environ.get("VX_JOBS", "8")), t0 + (780 if tier == "quick" else 36000))
    for r in results:
        f, case = r["file"], r["case"]
        cfg = cfgs[(f, case)]
        if "skipped" in r:
            skipped.append(case)
            print(f"[{case}] not decided: {r['skipped']}")
            continue
        if "error" in r:
            errors.append((case, r["error"]))
            print(f"[{case}] engine error:\n{r['error']}", file=sys.stderr)
            continue
        res.append(r)
        s, q = r["stat"], r["smt"]
        print(f"[{case}] {r['wall']:.1f}s paths={s['paths']} ends={r['ends']} checks={s['checks']} (normalised {s['checks_norm']}, solver {s['checks_solver']}) "
              f"queries={q['queries']} sat/unsat/unk={q['sat']}/{q['unsat']}/{q['unknown']} solver={q['time']:.1f}s div0={r['div0']} "
              f"uninit={s['uninit']} viol={len(r['violations'])} incomplete={r['incomplete']} unknown={len(r['unknown'])}", flush=True)
        seen, left = set(), {}
        for v in r["violations"]:
            left[v["msg"]] = left.get(v["msg"], 0) + 1
        tried = {}
        for v in r["violations"]:
            if v["msg"] in seen:
                continue
            left[v["msg"]] -= 1
            k = next((k for k in kf if k["case"] == case and re.search(k["match"], v["msg"])), None)
            if k:
                seen.add(v["msg"])
                line = f"KNOWN-FINDING: property={prop} {k['what']}"
                if line not in known_lines:
                    known_lines.append(line)
                continue
            if len(viol_lines) >= (40 if "--debug" in sys.argv else 5):
                continue
            ok, vals, out, san = confirm(v, f, case, cfg)
            tried[v["msg"]] = tried.get(v["msg"], 0) + 1
            if not ok and tried[v["msg"]] < 8 and left[v["msg"]] > 0:
                continue   # another path may have a counterexample that reproduces
            seen.add(v["msg"])
            if ok:
                os.makedirs(repdir, exist_ok=True)
                h = hashlib.sha1((case + v["msg"]).encode()).hexdigest()[:8]
                p = f"{repdir}/{prop}_{case[8:]}_{h}.json"
                json.dump(dict(property=prop, harness=f, case=case, message=v["msg"], kind=v["kind"], native=out, asan=san, inputs=vals,
                               replay_cmd=f"python3-vt {HERE}/replay.py {p}"), open(p, "w"), indent=1)
                viol_lines.append(f"VIOLATION property={prop} replay={p}")
                print(f"  violated: [{case}] {v['msg']}\n    native: {out}")
            else:
                unconf.append((case, v["msg"], out))
                print(f"  UNCONFIRMED [{case}] {v['msg']} (solver counterexample not reproduced natively): {out[-200:]!r} {vals[:12]}")
        # paths the encoding cannot follow to their end: the solver's witness is run to the end on the real code
        for v in r["opens"]:
            if viol_lines:
                break
            bad, out = follow(v, f, case, cfg)
            if bad:
                os.makedirs(repdir, exist_ok=True)
                p = f"{repdir}/{prop}_{case[8:]}_open.json"
                json.dump(dict(property=prop, harness=f, case=case, message=out, kind="open", native=out, asan=False, inputs=v["cands"][0],
                               replay_cmd=f"python3-vt {HERE}/replay.py {p}"), open(p, "w"), indent=1)
                viol_lines.append(f"VIOLATION property={prop} replay={p}")
                print(f"  violated: [{case}] beyond {v['msg']}\n    native: {out}")
        # translation validation
        for vals, tr in r["tv"]:
            b = native_bin(f, case, cfg)
            if b is None:
                break
            rc, out = native_run(b, [(n, repr(v)) for n, v in vals], trace=True)
            lines = [l.split() for l in out.split("\n") if l.startswith("VXT")]
            tvn += 1
            bad = len(lines) != len(tr)
            if not bad:
                for l, (k_, msg, vv) in zip(lines, tr):
                    for a, b_ in zip(l[2:], vv):
                        a = float(a)
                        if a == a and b_ == b_ and abs(a - b_) > 1e-6 * max(1, abs(a), abs(b_)):
                            bad = True
                            if "--debug" in sys.argv:
                                print("   TV", msg, a, b_)
            if bad:
                tvmis += 1
                print(f"  translation-validation mismatch [{case}] native rc={rc} lines={len(lines)} engine={len(tr)}")
    for l in known_lines:
        print(l)
    wall = time.time() - t0
    write_evidence(prop, tier, seed, res, specs, viol_lines, known_lines, unconf, errors, skipped, tvn, tvmis, wall, t_ir)
    vac = [r["case"] for r in res if r["reached"] == 0 or (r["vacuity_sat"] == 0 and not r["violations"])]
    if viol_lines:
        for l in viol_lines:
            print(l)
        return 1
    if errors:
        print("ENGINE-ERROR in", [e[0] for e in errors])
        return 3
    if vac:
        print("VACUOUS cases:", vac)
        return 4 if only is None and any(not r["unknown"] and not r["incomplete"] for r in res if r["case"] in vac) else 0
    print(f"OK property={prop} tier={tier} cases={len(res)} wall={wall:.1f}s")
    return 0


def write_evidence(prop, tier, seed, res, specs, viol, known, unconf, errors, skipped, tvn, tvmis, wall, t_ir):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    S = lambda k: sum(r["stat"][k] for r in res)
    Q = lambda k: sum(r["smt"][k] for r in res)
    fns = {}
    kinds = {}
    for r in res:
        for k, n in r["functions"].items():
            fns[k] = fns.get(k, 0) + n
        for k, n in r["smt"]["kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
    spec = {}
    for f, c, g in specs:
        if g.get("bounds"):
            spec[c[8:]] = g["bounds"]
    undecided = [f"{r['case'][8:]}: {u}" for r in res for u in r["unknown"]]
    incomplete = [f"{r['case'][8:]}: {r['incomplete']}" for r in res if r["incomplete"]] + [f"{c[8:]}: hard time limit" for c in skipped]
    try:
        assum = json.load(open(HERE + "/assumptions.json"))
    except Exception:
        assum = {}
    ev = dict(property=prop, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation="Bounded symbolic execution of the LLVM IR compiled from /repo on this run; every obligation is decided for all values "
                              "of the symbolic inputs within the stated bounds by polynomial normalisation or an SMT (z3) verdict; exact real arithmetic.",
                  functions_encoded=fns, cases=[r["case"][8:] for r in res], bounds=spec,
                  paths=S("paths"), basic_blocks=S("blocks"), forks=S("forks"),
                  obligations=S("checks"), obligations_by_normalisation=S("checks_norm"), obligations_by_solver=S("checks_solver"),
                  obligations_undecided=len(undecided), undecided=undecided[:20], incomplete_cases=incomplete,
                  solver_queries=Q("queries"), solver_sat=Q("sat"), solver_unsat=Q("unsat"), solver_unknown=Q("unknown"),
                  solver_time_s=round(Q("time"), 2), longest_query_s=round(max([r["smt"]["maxq"] for r in res] or [0]), 2), query_kinds=kinds,
                  vacuity_witnesses=sum(r["vacuity_sat"] for r in res), zero_denominator_paths_excluded={r["case"][8:]: r["div0"] for r in res if r["div0"]},
                  engine_vs_native_traces=tvn, engine_vs_native_mismatches=tvmis,
                  unconfirmed_counterexamples=[f"{c[8:]}: {m}" for c, m, o in unconf], engine_errors=[c for c, e in errors],
                  known_findings=known, ir_build_s=round(t_ir, 2)),
              assumptions=assum.get("common", []) + assum.get(prop, []), wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)


if __name__ == "__main__":
    main()
