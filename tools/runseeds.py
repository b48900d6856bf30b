#!/usr/bin/env python3
"""runseeds.py [GLOB]: apply each planted bug to /repo, run its property's check, undo it."""
import glob, json, os, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout
pat = sys.argv[1] if len(sys.argv) > 1 else "*"
props = sys.argv[2].split(",") if len(sys.argv) > 2 else None
for d in sorted(glob.glob(os.path.join(H, "seeded", pat))):
    m = json.load(open(d + "/meta.json"))
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for p in props or [m["property"]]:
            t = time.time()
            r = subprocess.run(["python3", H + "/check.py", p, "--quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("%-32s %s rc=%d %.0fs" % (os.path.basename(d), p, r.returncode, time.time() - t))
            for l in r.stdout.strip().split("\n"):
                print("     ", l[:220])
            sys.stdout.flush()
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
