import os
import sys

from mc import engine

if sys.argv[1] == "replay":
    sys.exit(engine.replay(sys.argv[2]))
code = engine.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
sys.stdout = sys.__stdout__
os._exit(code)
