"""setup_cmd: nothing to compile; checks that the environment can run the checks and that the reference model is consistent."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.environ.get('VERIF_REPO', '/repo'), V]), JAX_PLATFORMS='cpu',
           PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='4')
os.makedirs(V + '/evidence', exist_ok=True)
sys.exit(subprocess.call([PY, V + '/tools/selftest.py'], env=env))
