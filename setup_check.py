#!/usr/bin/env python3
"""setup_cmd: nothing to build; confirms that the tools the checks use are present."""
import subprocess
import sys

code = "import hypothesis, rply, matplotlib, PIL, numpy, sys; print(sys.version.split()[0], hypothesis.__version__)"
env = {"PATH": "/usr/bin:/bin", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "MPLCONFIGDIR": "/tmp", "HOME": "/tmp"}
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=env))
