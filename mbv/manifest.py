"""Writes /verif/MANIFEST.json: every property with a mbv/check_<id>.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "mbv", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(V, "mbv", "check_%s.py" % i)) and not n.get("na"):
        checks.append(dict(property=i, quick_cmd="python3 mbv/check_%s.py quick" % i,
                           thorough_cmd="python3 mbv/check_%s.py thorough" % i, technique=n.get(
                               "technique", "TLA+ trace validation (TLC): generated library calls checked against the specification"),
                           level=n.get("level", "model_checking"),
                           level_note=n.get("level_note", NOTES["default_note"])))
    else:
        na.append(dict(property=i, reason=n.get("na", "check not built yet")))
m = dict(version=1, setup_cmd="python3 mbv/setup.py",
         hooks=dict(guard="none", enable="no hooks: every check observes the library through its exported interface", source_commits=[]),
         checks=checks, not_applicable=na, notes=NOTES.get("notes", ""))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
