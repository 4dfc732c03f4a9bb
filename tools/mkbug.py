#!/usr/bin/env python3
"""mkbug.py DIR: reads DIR/edit.py (property, needs, breaks, edits=[(file, old, new)...]) and writes
patch.diff and meta.json next to it; copies run_demo.py and writes demo.sh."""
import difflib, json, os, shutil, subprocess, sys, tempfile
for d in sys.argv[1:]:
    d = os.path.abspath(d)
    ns = {}
    exec(open(os.path.join(d, "edit.py")).read(), ns)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + t, shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=t, check=True)
        for f, old, new in ns["edits"]:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (d, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, text=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "run_demo.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/run_demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
