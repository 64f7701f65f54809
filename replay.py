#!/usr/bin/env python3
"""Run a saved case against /repo:  python3 replay.py replays/C07/....json"""

from __future__ import annotations

import json
import shutil
import sys
import tempfile

import run


def main():
    with open(sys.argv[1]) as fh:
        d = json.load(fh)
    tmp = tempfile.mkdtemp(prefix="pv-")
    try:
        known = sorted(run.known_findings(d["property"]))
        yes, msg = run.confirm(tmp, d["property"], d["sub"], d["case"], known, "replay")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(msg or "no violation")
    if yes:
        print(f"VIOLATION property={d['property']} replay={sys.argv[1]}")
    return 1 if yes else 0


if __name__ == "__main__":
    sys.exit(main())
