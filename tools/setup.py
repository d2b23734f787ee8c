"""The framework is plain python: check that what it needs is there."""
import importlib
import sys

for m in ("numpy", "scipy", "astropy", "h5py", "photutils", "mpmath",
          "matplotlib", "pandas", "xlwt"):
    importlib.import_module(m)
print("python", sys.version.split()[0], "ready")
