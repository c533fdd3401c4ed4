"""setup: nothing to build (pure Python); verifies that the pieces the checks need can be imported."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core
core.setup_paths()
import hypothesis
import numpy
import scipy
print("ok: python", sys.version.split()[0], "hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "scipy", scipy.__version__)
os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
