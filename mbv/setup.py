"""Builds the library and drivers once and parses every specification (sanity of the sandbox)."""
import build, glob, os, subprocess, sys
import run
print(run.vm())
ok = True
for f in sorted(glob.glob(os.path.join(run.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", run.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=run.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or "rror" in r.stdout.replace("errors: 0", ""):
        print(f, r.stdout[-1500:])
        ok = False
print("setup", "ok" if ok else "failed")
sys.exit(0 if ok else 1)
