"""Build the CPU kernels of the working tree against the simulated OpenMP runtime (thsim/ompsim)."""

import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("THSIM_REPO", "/repo")
OUT = os.path.join(VERIF, "scratch", "omp")

EXT = {
    "torch_harmonics.disco._C": ["torch_harmonics/disco/optimized/*_interface.cpp", "torch_harmonics/disco/optimized/kernels_cpu/*.cpp"],
    "torch_harmonics.attention._C": ["torch_harmonics/attention/optimized/*_interface.cpp", "torch_harmonics/attention/optimized/kernels_cpu/*.cpp"],
    "disco_helpers": ["torch_harmonics/disco/optimized/disco_helpers.cpp"],
    "attention_helpers": ["torch_harmonics/attention/optimized/attention_helpers.cpp"],
}


def _key():
    h = hashlib.sha256()
    files = [os.path.join(HERE, "ompbuild.py"), os.path.join(HERE, "ompsim/simomp.cpp")]
    for root, _, fs in os.walk(os.path.join(REPO, "torch_harmonics")):
        files += sorted(os.path.join(root, f) for f in fs if f.endswith((".cpp", ".h", ".cc", ".hpp")))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd)[:300] + "\n" + r.stdout[-3000:])
    return r.stdout


def ensure():
    """Returns the directory with libsimomp.so and the four extensions."""
    try:
        return _ensure()
    except RuntimeError as e:
        print(f"thsim: the kernels cannot be built against the simulated OpenMP runtime; no answer\n{e}", file=sys.stderr)
        sys.stderr.flush()
        os._exit(2)


def _ensure():
    d = os.path.join(OUT, _key())
    if os.path.exists(os.path.join(d, "ok")):
        return d
    import torch
    from torch.utils.cpp_extension import include_paths, library_paths

    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=OUT)
    lib = os.path.join(tmp, "libsimomp.so")
    _run(["g++", "-O2", "-std=c++17", "-fPIC", "-shared", os.path.join(HERE, "ompsim/simomp.cpp"), "-o", lib, "-lpthread", "-ldl"])
    syms = [ln.split()[-1] for ln in _run(["nm", "-D", "--defined-only", lib]).splitlines() if ln.split()[-1].startswith("sim_")]
    known = {ln.split()[-1] for ln in _run(["nm", "-D", "--defined-only", lib]).splitlines()}
    ren = os.path.join(tmp, "rename")
    with open(ren, "w") as f:
        for s in sorted(syms):
            f.write(f"{s[4:]} {s}\n")
    inc = [f"-I{p}" for p in include_paths()] + [f"-I{sysconfig.get_path('include')}"]
    base = ["-std=c++20", "-O1", "-g1", "-ffast-math", "-DNDEBUG", "-fPIC", "-fopenmp", "-fsanitize=thread", "-DTORCH_API_INCLUDE_EXTENSION_H", f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)}", "-DBUILD_CPP=1", "-DBUILD_CUDA=0", "-DBUILD_KPACKED_SM90=0", "-DBUILD_KPACKED_SM100=0", "-w"]

    def compile_one(job):
        ext, src, obj = job
        _run(["g++", *base, f"-DTORCH_EXTENSION_NAME={ext.split('.')[-1]}", *inc, "-c", src, "-o", obj])
        _run(["objcopy", f"--redefine-syms={ren}", obj])
        left = [ln.split()[-1] for ln in _run(["nm", "-u", obj]).splitlines() if ln.split()[-1].startswith(("GOMP_", "omp_", "__tsan_")) and ln.split()[-1] not in known]
        if left:
            raise RuntimeError(f"{src} uses runtime calls the simulator does not know: {left}")

    jobs = []
    objs = {}
    for ext, pats in EXT.items():
        srcs = sorted(f for p in pats for f in glob.glob(os.path.join(REPO, p)))
        objs[ext] = [os.path.join(tmp, f"{ext.replace('.', '_')}_{i}.o") for i in range(len(srcs))]
        jobs += [(ext, s, o) for s, o in zip(srcs, objs[ext])]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, jobs))
    libs = [f"-L{p}" for p in library_paths()]

    def link(ext):
        _run(["g++", "-shared", *objs[ext], "-o", os.path.join(tmp, so_name(ext)), *libs, "-lc10", "-ltorch", "-ltorch_cpu", "-ltorch_python", f"-L{tmp}", "-lsimomp", "-Wl,-rpath,$ORIGIN"])

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(link, EXT))
    for o in glob.glob(os.path.join(tmp, "*.o")):
        os.remove(o)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:  # somebody else was faster
        if not os.path.exists(os.path.join(d, "ok")):
            raise
    return d


def so_name(ext):
    return ext.replace(".", "_") + ".so"


class Finder:
    """Imports of the four extension modules get the simulated build."""

    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path=None, target=None):
        if name in EXT:
            p = os.path.join(self.d, so_name(name))
            return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


def install(d):
    assert not any(m in sys.modules for m in EXT)
    sys.meta_path.insert(0, Finder(d))
