"""setup_cmd: make hypothesis importable and build gemlog's extension out of tree (both cached)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from boot import boot
boot()
import hypothesis
print("hypothesis", hypothesis.__version__, "and gemlog ready")
