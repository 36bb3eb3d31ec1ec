"""Nothing is built: parses every specification and imports the code under test once, so that a broken
sandbox is noticed before any check runs."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from core import CP, SPEC, PY, VERIF
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "*** Errors" in p.stdout or "Could not" in p.stdout:
        print(f, p.stdout[-1500:])
        bad = 1
sys.exit(bad)
