import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True

from dst.runner import main

sys.exit(main())
