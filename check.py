#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import engine, props

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = ap.parse_args()
    sys.exit(engine.run_check(a.prop, props.CHECKS[a.prop], a.tier, a.seed))
