"""determinism.py [ids]: the same seeds twice, in processes with different hash seeds and environments, give the same executions."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 17)]
N = os.environ.get("N", "60")
bad = 0
for i in ids:
    outs = []
    ps = [subprocess.Popen(["/opt/venv/bin/python", "check.py", i, "--digests", N], cwd=V, env=dict(os.environ, PYTHONHASHSEED=h, PADDING="x" * p), stdout=subprocess.PIPE, text=True) for h, p in (("0", 1), ("4711", 3000))]
    outs = [[x for x in p.communicate()[0].splitlines() if x.startswith("digest")] for p in ps]
    diff = [a for a, b in zip(*outs) if a != b]
    ok = not diff and len(outs[0]) == len(outs[1]) == int(N)
    bad |= not ok
    print(i, "identical" if ok else f"DIFFERENT {len(outs[0])} {len(outs[1])} {diff[:3]}", f"({len(outs[0])} runs)", flush=True)
sys.exit(bad)
