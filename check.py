import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core
if __name__ == '__main__':
    sys.exit(core.main(sys.argv))
