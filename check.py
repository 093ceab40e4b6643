#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--key KEY | --replay FILE] [--keep]"""
import argparse, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import driver
from registry import CHECKS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--key")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    key = a.key
    if a.replay:
        key = json.load(open(a.replay))["replay"]
    sys.exit(driver.check(a.property, CHECKS[a.property], a.tier, key, a.keep))


main()
