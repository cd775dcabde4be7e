"""Cross-checks the symbolic executor against numpy (see dv/selftests.py)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("FOXES_REPO", "/repo"))
from dv import core  # noqa
from dv import selftests
sys.exit(selftests.main("--quick" in sys.argv))
