"""mk(id, property, needs, what, [(file, old, new), ...], demo): writes seeded/<id>/ from textual replacements in a scratch
clone of /repo (HEAD), refusing patches that do not change lines of the original repository."""
import json, os, shutil, subprocess, tempfile
ORIG = "5a29952"
def original_lines(f):
    out = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], text=True).splitlines()
    orig = subprocess.check_output(["git", "-C", "/repo", "rev-list", ORIG], text=True).split()
    return [l.split()[0].lstrip("^")[:39] in {o[:39] for o in orig} or l.startswith("^") for l in out]
def mk(sid, prop, needs, what, edits, demo):
    d = tempfile.mkdtemp(prefix="mkseed_"); wt = os.path.join(d, "wt")
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    try:
        nor = 0
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            ol = original_lines(f); start = s[:s.index(old)].count("\n")
            olines, nlines = old.split("\n"), new.split("\n")
            import difflib
            for tag, a, b, c, e in difflib.SequenceMatcher(None, olines, nlines, autojunk=False).get_opcodes():
                if tag in ("replace", "delete"):
                    nor += sum(ol[start + a:start + b]); bad = [olines[i] for i in range(a, b) if not ol[start + i]]
                    if bad: print(sid, "WARNING: not original:", bad)
            open(p, "w").write(s.replace(old, new))
        if not nor: print(sid, "WARNING: no original line changed")
        diff = subprocess.check_output(["git", "-C", wt, "diff"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o = os.path.join("/verif/seeded", sid); os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "wb").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(o, "meta.json"), "w"), indent=1)
    open(os.path.join(o, "demo.sh"), "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    open(os.path.join(o, "demo.py"), "w").write(demo.lstrip("\n"))
