"""Apply each planted change to /repo, run the quick check of its property, undo.  Usage: runseeded.py [ids...] [--all-checks]"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
def sh(c):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
for i in ids:
    prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
    r = sh(f"git -C /repo apply {S}/{i}/patch.diff")
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout); continue
    try:
        t = time.time()
        props = [prop]
        if "--all-checks" in sys.argv:
            props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        out = []
        for p in props:
            r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py {p}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{p}:{'CAUGHT' if r.returncode == 1 and v else 'missed rc=%d' % r.returncode}")
        print(i, " ".join(out), f"{time.time()-t:.0f}s", flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
