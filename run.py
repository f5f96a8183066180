"""python /verif/run.py <property> [--replay file]   (VERIF_SEED, VERIF_TIER)"""
import os, sys
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
if not os.path.isdir(os.environ.get("MPLCONFIGDIR", "")):
    os.environ["MPLCONFIGDIR"] = "/opt/mplcache" if os.path.isdir("/opt/mplcache") else "/tmp"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import core
if __name__ == "__main__":
    rc = core.main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
