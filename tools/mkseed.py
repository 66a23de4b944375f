#!/usr/bin/env python3-vt
"""mkseed.py SPEC.json ...: build /verif/seeded/<id>/ from {id, property, edits:[[file,old,new],...], harness, case, runs, needs, breaks, asan, env};
confirms build, tests, demo on both trees, and runs the property's check on the patched tree.  --nocheck skips the last."""
import sys, json, os, subprocess, shutil, glob
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = """#!/bin/bash
# Runs the scenario against the sources of the tree in the current directory with pseudo-random inputs.
set -u
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
INC="-I$R/MDLIB -I$R/MDLIB/include -I/usr/include/suitesparse -I/usr/include/hdf5/serial -I$H"
export R W INC
ls "$R"/MDLIB/*.c | grep -v omptest.c | xargs -P8 -I{} sh -c 'gcc -O0 -g -w -std=gnu11 -fno-pie @FLAGS@ $INC -c {} -o $W/$(basename {}).o && objcopy --weaken $W/$(basename {}).o' || exit 3
gcc -O0 -g -w -std=gnu11 -no-pie -fno-pie @FLAGS@ $INC -DVXCASE=@CASE@ "$H/case.c" "$H/vxdemo.c" "$W"/*.o -o "$W/demo" \\
  -lumfpack -lcholmod -lcxsparse -lamd -lcolamd -lcamd -lccolamd -lsuitesparseconfig -llapack -lblas -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lm || exit 3
cd "$W"
@ENV@ timeout 250 ./demo @RUNS@ > out.txt 2>&1
rc=$?
grep -a FAILED out.txt | head -5; tail -n 3 out.txt
exit $rc
"""
ODEMO = DEMO.replace("gcc -O0 -g -w -std=gnu11 -fno-pie @FLAGS@ $INC -c", "clang-18 -O0 -g -w -std=gnu11 -fno-pie -fopenmp -D_OMP_ -fsanitize=thread -ffp-contract=off $INC -c") \
    .replace('"$H/vxdemo.c" "$W"', '"$H/vxdemo.c" "$H/vxomp.c" -DVXTEAM=@TEAM@ -Wl,--wrap=free "$W"') \
    .replace("with pseudo-random inputs.", "with pseudo-random inputs, with teams of @TEAM@ threads.")
nocheck = "--nocheck" in sys.argv
for sf in [a for a in sys.argv[1:] if a[0] != "-"]:
  for s in json.load(open(sf)):
    d = f"{V}/seeded/{s['id']}"
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    try:
        for f, old, new in s["edits"]:
            p = f"/repo/{f}"; t = open(p, errors="surrogateescape").read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", old[:60]); raise SystemExit(1)
            open(p, "w", errors="surrogateescape").write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        if s.get("harness"):
            shutil.copy(f"{V}/harness/{s['harness']}", d + "/case.c")
            for h in glob.glob(f"{V}/harness/*.h"): shutil.copy(h, d)
            shutil.copy(f"{V}/tools/vxdemo.c", d)
            fl = s.get("flags", "")
            if s.get("omp"):
                for h in ("native/vxomp.c", "native/omp/omp.h"): shutil.copy(f"{V}/{h}", d)
            if os.path.exists(f"{V}/harness/{s['harness'].replace('O01_', '')}") and s["harness"].startswith("O01_"):
                shutil.copy(f"{V}/harness/{s['harness'][4:]}", d)
            t = (ODEMO if s.get("omp") else DEMO).replace("@TEAM@", str(s.get("omp"))).replace("@CASE@", "vx_case_" + s["case"]).replace("@RUNS@", str(s.get("runs", 60))).replace("@FLAGS@", fl).replace("@ENV@", s.get("env", ""))
            open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json")) if r.returncode == 0 else {"passed": [], "failed": ["build"]}
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        rc = None
        if not nocheck:
            c = sh(f"{V}/check.py {s['property']}", cwd=V); rc = c.returncode
            if rc != 1: print(c.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = len(o["passed"]) == 8 and r1.returncode not in (0, 3) and r0.returncode == 0
    print(s["id"], "tests", len(o["passed"]), "demo patched", r1.returncode, r1.stdout.strip().split("\n")[0][:150], "| clean", r0.returncode, r0.stdout.strip()[-80:] if r0.returncode else "", "| check", rc, "" if ok else "   <<<<<< NOT COUNTING", flush=True)
