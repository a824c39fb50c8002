"""setup: nothing to build; verifies that the engine imports with the standard library"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine.drive  # noqa: E402,F401
import checks.base  # noqa: E402,F401
print("engine ready")
