"""setup_cmd: nothing to build; checks that the interpreters and solvers the checks use are there."""
import subprocess, shutil, sys
vt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
r = subprocess.run([vt, "-c", "import z3, numpy; print('z3', z3.get_version_string())"])
r2 = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy; print('numpy', numpy.__version__)"])
sys.exit(r.returncode or r2.returncode)
