"""Write MANIFEST.json from properties.jsonl and LEVELS below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = {p[:-3].upper() for p in os.listdir(os.path.join(HERE, "pyvc", "props"))
          if p[0] == "c" and p.endswith(".py")} \
    if os.path.isdir(os.path.join(HERE, "pyvc", "props")) else set()
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    proved = p in PROVED
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": ("contract-based deductive verification of the functions "
                      "in /repo (symbolic execution of the current source, "
                      "z3), refutations replayed on the real code"
                      if proved else
                      "run-time evaluation of the contracts on the real code "
                      "(bounded stand-in for the deductive proof)"),
        "level": "proof" if proved else "exploration",
        "level_note": NOTES.get(p, NOTES["default"]),
    })
json.dump({"version": 1, "setup_cmd": "python3 setup_check.py",
           "checks": checks, "not_applicable": [],
           "notes": "see DESIGN.md"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
