"""Determinism self-test: the same seeds give the same event-log digests under other hash seeds and worker counts.

usage: python3 tools/selftest.py [runs] [property ...]
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETTINGS = (("0", "8"), ("77", "5"), ("4242", "3"))


def main():
    runs = sys.argv[1] if len(sys.argv) > 1 else "40"
    ids = sys.argv[2:] or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    bad = 0
    with tempfile.TemporaryDirectory() as tmp:
        for p in ids:
            seen = []
            for h, w in SETTINGS:
                f = os.path.join(tmp, "d.json")
                r = subprocess.run(["bash", os.path.join(HERE, "run.sh"), p, "--runs", runs, "--workers", w, "--digests", f],
                                   env={**os.environ, "PYTHONHASHSEED": h}, capture_output=True, text=True)
                seen.append((r.returncode, json.load(open(f)) if r.returncode == 0 else r.stdout[-400:] + r.stderr[-400:]))
            same = all(s == seen[0] for s in seen) and seen[0][0] == 0
            bad += not same
            if same:
                print(f"{p}: {len(seen[0][1])} runs, identical digests under {len(seen)} settings", flush=True)
            else:
                diff = [x[0] for a in seen for b in seen if a[0] == b[0] == 0 for x, y in zip(a[1], b[1]) if x != y]
                print(f"{p}: NOT deterministic: runs {sorted(set(diff))[:10]} {[s for s in seen if s[0]]}", flush=True)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
