import os
import sys
from vmon import core

code = core.main(sys.argv[1:])
sys.stdout.flush()
os._exit(code)
