"""Nothing to build: checks that the tools the verifier needs are importable."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import z3            # noqa: F401
from engine import contract, runtime   # noqa: F401
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import torch, numpy"], check=True)
print("setup ok")
