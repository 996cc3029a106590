"""Regenerates the 'fixed' entries of known_findings.json from /repo's fix: commits (development tool)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(V, "mbv", "fixprops.json")))
p = os.path.join(V, "known_findings.json")
old = [k for k in json.load(open(p)) if k.get("status") != "fixed"] if os.path.exists(p) else []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        what = s[4:].strip()
        pr = PROPS.get(what)
        if not pr:
            print("no property for:", what)
            continue
        out.append(dict(property=pr, status="fixed", commit=h, what=what, entry="fixed: property=%s %s %s" % (pr, h, what)))
json.dump(out + old, open(p, "w"), indent=1)
print(len(out), "fixed,", len(old), "open")
