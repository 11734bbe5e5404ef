"""Nothing to build: legume is pure Python imported from /repo, and TLC reads
the specifications as they are.  Checks that both are usable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import lg
rc, out = tlc('SessionImpl')
print(out.splitlines()[-1] if out else '', rc)
sys.exit(0 if rc == 0 else 1)
