#!/opt/venv/bin/python
"""check.py CXX [quick|thorough]: decide one property. See DESIGN.md."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    core.setup_env()
    try:
        mod = importlib.import_module("harness.checks." + pid.lower())
    except Exception as e:
        # the code under test cannot even be imported: that is a verdict too (every property is broken by it)
        if core.in_repo(e.__traceback__):
            def run(ctx, e=e):
                ctx.violation("import", {"exception": "%s: %s" % (type(e).__name__, e)})
            core.main(pid, "model_checking", run)
        raise
    core.main(pid, getattr(mod, "LEVEL", "model_checking"), mod.run)
