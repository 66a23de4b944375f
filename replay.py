#!/usr/bin/env python3-vt
"""replay.py FILE: run the counterexample recorded in FILE against the real code, compiled natively from /repo."""
import sys, json, os, tempfile, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
check.WORK = tempfile.mkdtemp(prefix="vxr_")
try:
    f = r["harness"]
    cfg = {c: g for ff, c, g in check.load_spec(r["property"]) if os.path.basename(ff) == os.path.basename(f)}[r["case"]]
    b = check.native_bin(f, r["case"], cfg, r["asan"])
    rc, out = check.native_run(b, r["inputs"], dirty=r["asan"] == 2)
    print("property", r["property"], "case", r["case"], "expected:", r["message"])
    hits = [l for l in out.split("\n") if "VXFAIL" in l or "AddressSanitizer" in l or re.match(r"\s+#\d", l)]
    print("\n".join(hits[:12]) or out[-500:])
    print("native exit code", rc, "(66: assertion of the property failed)")
    rc = 1 if rc else 0
finally:
    shutil.rmtree(check.WORK, ignore_errors=True)
sys.exit(rc)
