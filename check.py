#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough>   (exit 0 held, 1 violation, 2 tool error)"""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
from vf.registry import MODULES

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    try:
        mod = importlib.import_module("vf." + MODULES[prop])
        core.build()
        c = core.Check(prop, tier, "model_checking")
        getattr(mod, "check_" + prop)(c)
        rc = c.finish()
    except core.ToolError as e:
        print(f"ERROR property={prop}: {e}", flush=True); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
main()
