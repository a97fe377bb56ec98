#!/opt/venv/bin/python
"""check.py <property> [--thorough] [--replay FILE] [--one RUNSEED]"""
import importlib
import os
import sys

os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault("THSIM_REPO", "/repo")
sys.path[:0] = [VERIF, REPO]

from thsim import build  # noqa: E402


def main():
    prop = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    build.ensure()
    import warnings

    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    mod = importlib.import_module(f"props.{prop.lower()}")
    from thsim import search

    try:
        return search.main(mod.CHECK, sys.argv[2:])
    finally:
        if "thsim.threads" in sys.modules:
            sys.modules["thsim.threads"].SharedMemo.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
