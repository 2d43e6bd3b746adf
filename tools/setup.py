"""Nothing to build: verifies that the interpreter, the package under test and the solver import."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run

sys.exit(subprocess.run([run.PY, "-c", "import symx, z3, jax, appletree; print(z3.get_version_string(), jax.__version__)"], env=run.ENV, cwd=HERE).returncode)
