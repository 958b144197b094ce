#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulation from /repo and searches for a
violation of one property. VERIF_TIER (quick, thorough) and VERIF_SEED are
honoured. Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Anything else: the check itself did not work."""
import os, sys, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
RACE = {"C14"}
QUICK = {"C04": 45, "C14": 60}

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    b = [sys.executable, os.path.join(VERIF, "tools", "build.py")]
    if prop in RACE:
        b.append("--race")
    p = subprocess.run(b)
    if p.returncode != 0:
        print("the simulation could not be built", file=sys.stderr)
        return 3
    secs = os.environ.get("VERIF_SECONDS") or str(QUICK.get(prop, 40) if tier == "quick" else 690)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = subprocess.run([os.path.join(OUT, "vsim"), "check", prop, "--build", OUT, "--seconds", secs,
        "--tier", tier, "--seed", str(seed), "--known", os.path.join(VERIF, "known-findings.json"),
        "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
        "--replays", os.path.join(OUT, "replays")])
    return p.returncode if p.returncode in (0, 1) else 3

sys.exit(main())
