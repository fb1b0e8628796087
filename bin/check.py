#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property for the code in /repo.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "py"))
sys.dont_write_bytecode = True
import vlib
from check import Check


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop <= "C10" or prop in ("C19", "C20", "C21", "C25"):
        import libgen as gen
    else:
        import cligen as gen
    ck = Check(prop, tier, seed)
    ck.forget()
    try:
        gen.run(ck)
        code = ck.finish()
    except vlib.ToolError as e:
        # what was found before still stands
        print("ERROR of the check: %s" % e, flush=True)
        code = 1 if ck.violations else 2
        if code == 1:
            ck.finish()
    except Exception:
        traceback.print_exc()
        code = 1 if ck.violations else 2
    finally:
        vlib.cleanup()
    sys.exit(code)


main()
