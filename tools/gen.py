"""Write properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # property dicts
NA = {}  # id -> reason
NOTE = {}  # id -> level note


def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, na=None):
    assert len(title) <= 80, title
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
    if na:
        NA[id] = na
    else:
        NOTE[id] = note


exec(open(os.path.join(HERE, "tools", "table.py")).read())

TECH = "deterministic simulation with fault injection: seeded search, minimised replayable traces"


def main():
    P.sort(key=lambda d: d["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash run.sh --help >/dev/null",
        "checks": [
            {
                "property": d["id"],
                "quick_cmd": f"bash run.sh {d['id']} --tier quick",
                "thorough_cmd": f"bash run.sh {d['id']} --tier thorough",
                "technique": TECH,
                "level": "exploration",
                "level_note": NOTE[d["id"]],
            }
            for d in P
            if d["id"] not in NA
        ],
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "All checks run the code from /repo's working tree in forked simulated processes; no hooks in /repo are needed. "
        "Replay a reported violation with: bash run.sh <id> --replay <file>.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
