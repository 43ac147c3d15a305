#!/usr/bin/env python3
"""Run the checks of the properties of planted bugs against a scratch copy of /repo with the bug.
   trybugs.py [-p PROP] [ID...]"""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if args[:1] == ["-p"]:
    prop, args = args[1], args[2:]
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    if args and i not in args or prop and m["property"] != prop:
        continue
    w = "/tmp/trybug"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, capture_output=True, text=True)
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr[:200])
        continue
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", m["property"], "quick"], env=dict(os.environ, VERIF_REPO=w),
                       capture_output=True, text=True, cwd=V)
    ok = r.returncode == 1 and f"VIOLATION property={m['property']} " in r.stdout
    n = ""
    if ok:
        rp = r.stdout.split("replay=")[1].split()[0]
        n = json.load(open(rp))["count"]
    print(f"{i:32} {m['property']} {'caught' if ok else 'MISSED rc=%d' % r.returncode} n={n} {time.time()-t:.0f}s", flush=True)
    if not ok:
        print("   ", r.stdout[-300:], r.stderr[-600:])
    shutil.rmtree(w, ignore_errors=True)
