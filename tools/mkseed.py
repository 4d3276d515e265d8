"""Helper for writing seeded changes: mk(id, property, [(file, old, new)...], demo, needs, breaks).

The edits are made on a copy of the file in /repo; the patch is the unified diff.
"""
import difflib, json, os, subprocess

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")


def mk(id, prop, edits, demo, needs, breaks, extra=None, sh=None):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    texts = {}
    for f, old, new in edits:
        if f not in texts:
            src = open(os.path.join("/repo", f)).read()
            texts[f] = [src, src]
        assert texts[f][1].count(old) == 1, (id, f, texts[f][1].count(old), old)
        texts[f][1] = texts[f][1].replace(old, new)
    out = ""
    for f, (a, b) in texts.items():
        out += f"diff --git a/{f} b/{f}\n" + "".join(
            difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    if demo:
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        sh or '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$PWD /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    for name, text in (extra or {}).items():
        open(os.path.join(d, name), "w").write(text)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
