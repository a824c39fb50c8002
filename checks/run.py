"""python3 checks/run.py <property> [quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

if __name__ == "__main__":
    m = importlib.import_module("checks.%s" % sys.argv[1].lower())
    sys.exit(m.main(sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
