#!/opt/venv/bin/python
"""setup_cmd: make sure the extensions of /repo are built and the simulator imports."""
import os
import sys

os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), "/repo"]
from thsim import build  # noqa: E402

print("extensions:", build.ensure())
import torch  # noqa: E402
import torch_harmonics  # noqa: E402,F401
from thsim import core, dworld, search  # noqa: E402,F401

os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
print("ok", torch.__version__)
