"""setup_cmd: nothing to build (pure Python); make sure the interpreter and directories are there."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(H, d), exist_ok=True)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c", "import jax, equinox, optax, matplotlib, numpy"],
         env={**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "MPLCONFIGDIR": "/opt/venv/mpl"}) if os.path.exists("/opt/venv/bin/python") else 1)
