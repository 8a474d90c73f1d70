#!/usr/bin/env python3
"""Run the check of each planted bug's property against a scratch copy with the bug.

usage: try_seeded.py [--tier quick] [--seed N] [--other PROPERTY] [id ...]

The copy lies under /tmp and is removed afterwards; VERIF_REPO points the machinery at
it.  (Registered commands never use this: they always look at /repo.)
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--other", help="run this property's check instead")
    ap.add_argument("ids", nargs="*")
    args = ap.parse_args()
    missed = []
    for folder in sorted((ROOT / "seeded").iterdir()):
        if args.ids and folder.name not in args.ids:
            continue
        prop = args.other or json.loads((folder / "meta.json").read_text())["property"]
        tmp = Path(tempfile.mkdtemp(prefix="seeded-"))
        try:
            copy = tmp / "repo"
            subprocess.run(["git", "clone", "-q", os.environ.get("SEEDED_BASE", "/repo"), str(copy)], check=True)
            subprocess.run(["git", "-C", str(copy), "apply", str(folder / "patch.diff")], check=True)
            env = {**os.environ, "VERIF_REPO": str(copy), "VERIF_SEED": args.seed}
            r = subprocess.run([str(ROOT / "check"), prop, args.tier], env=env, capture_output=True, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
            detail = r.stdout.splitlines()[:2] if hit else [r.stdout[-200:], r.stderr[-300:]]
            print(f"{folder.name:34} {prop} {'caught' if hit else 'MISSED'} exit {r.returncode} {detail}", flush=True)
            if not hit:
                missed.append(folder.name)
        finally:
            shutil.rmtree(tmp)
    print("missed:", missed)


if __name__ == "__main__":
    main()
