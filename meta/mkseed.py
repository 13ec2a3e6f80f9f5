#!/usr/bin/env python3
"""mkseed.py ID: reads meta/seeds/ID.py (PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO) and writes seeded/ID."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VREPO", "/repo")
def sh(c, **k): return subprocess.run(c, shell=True, cwd=REPO, **k)
for sid in sys.argv[1:]:
    ns = {}
    exec(open(f"{ROOT}/meta/seeds/{sid}.py").read(), ns)
    assert not sh("git status --porcelain", capture_output=True, text=True).stdout.strip(), "/repo is not clean"
    d = f"{ROOT}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom demolib import *\n\n" + ns["DEMO"].lstrip())
        shutil.copy(ROOT + "/meta/demolib.py", d + "/demolib.py")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        # lines added by our own commits must not be touched
        bad = []
        base = "$(git log --reverse --format=%H --grep=^fix: | head -1)^"
        orig = sh(f"git diff {base} HEAD", capture_output=True, text=True).stdout
        added = {l[1:] for l in orig.splitlines() if l.startswith("+") and not l.startswith("+++")}
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in added: bad.append(l)
        if bad: print("  touches lines of fix commits:", bad)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True, timeout=280)
        a = r.returncode; aout = r.stdout[-1500:] + r.stderr[-1500:]
    finally:
        sh("git checkout -q -- .")
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True, timeout=280)
    print(sid, "demo patched:", a, "unpatched:", r.returncode)
    print("   ", aout.splitlines()[0] if a and aout else aout)
    if r.returncode: print(r.stdout[-2500:], r.stderr[-2500:])
