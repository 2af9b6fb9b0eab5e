#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' FILE <<< 'OLD\n=====\nNEW' : writes seeded/ID/patch.diff and meta.json.
Several edits may be given, separated by a line '#####' (a line '@@@@@ path' switches files)."""
import json, os, subprocess, sys
R = os.environ.get("REPO", "/repo")
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sid, prop, needs, what, path = sys.argv[1:6]
wt = "/tmp/seedwork/wt_" + sid
subprocess.run(["git", "-C", R, "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
try:
    for e in sys.stdin.read().split("\n#####\n"):
        if e.startswith("@@@@@ "):
            path, e = e[6:].split("\n", 1)
        old, new = e.strip("\n").split("\n=====\n") if "\n=====\n" in e else (e.strip("\n").replace("\n=====", ""), "")
        f = os.path.join(wt, path)
        s = open(f).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(f, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", wt, "diff"], check=True, capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", R, "worktree", "remove", "--force", wt])
out = os.path.join(V, "seeded", sid)
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "w").write(d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(out, "meta.json"), "w"), indent=1)
sh = os.path.join(out, "demo.sh")
if not os.path.exists(sh):
    open(sh, "w").write('#!/bin/bash\n# exit 0 when the behaviour is right\nexec env PYTHONPATH=/repo MPLBACKEND=agg /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(sh, 0o755)
