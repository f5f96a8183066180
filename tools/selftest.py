"""setup_cmd: the library imports from /repo and the oracles agree with a value computed by hand."""
import os, sys
sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from mon import core, ref
at = core.import_library()
x = ref.ld([0, 1, 4, 9, 16, 25])          # second differences 2 at m=1
assert abs(float(ref.oadev(x, 1, 1)[0]) - 2 / np.sqrt(2)) < 1e-15
assert float(ref.ohdev(x, 1, 1)[0]) == 0 and float(ref.mtie(x, 1, 2)[0]) == 16
assert np.finfo(np.longdouble).eps < 1e-18
print("selftest ok:", at.__file__)
