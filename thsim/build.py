"""Make sure /repo's C++ extensions correspond to /repo's working tree (rebuild them when they do not)."""

import fcntl
import glob
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get("THSIM_REPO", "/repo")


def _sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "torch_harmonics")):
        for f in files:
            if f.endswith((".cpp", ".h", ".cc", ".hpp")):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


def _sums():
    lines = []
    for f in _sources():
        with open(os.path.join(REPO, f), "rb") as fh:
            lines.append(f"{hashlib.sha256(fh.read()).hexdigest()}  {f}")
    return lines


def _sos():
    return glob.glob(os.path.join(REPO, "*.so")) + glob.glob(os.path.join(REPO, "torch_harmonics/*/_C*.so"))


def up_to_date():
    p = os.path.join(REPO, "build/.sources.sha256")
    if not os.path.exists(p) or len(_sos()) < 4:
        return False
    with open(p) as fh:
        return sorted(x for x in fh.read().splitlines() if x) == sorted(_sums())


def ensure():
    if up_to_date():
        return "reused"
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    with open(os.path.join(REPO, "build/.thsim.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if up_to_date():
            return "reused"
        if REPO != "/repo":
            print("thsim: extensions of a scratch copy are out of date", file=sys.stderr)
            sys.exit(2)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:], file=sys.stderr)
            print("thsim: the working tree does not build; no answer", file=sys.stderr)
            sys.exit(2)
    return "rebuilt"
