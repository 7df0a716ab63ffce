#!/usr/bin/env python3
"""mkseed.py SPEC.py TREE: writes seeded/<id>/ for every record of SPEC.py (a list SEEDS of dicts with id,
property, kit, edits [(file, old, new)], main, needs, breaks), the patch made in the scratch tree TREE."""
import json, os, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tree = sys.argv[2]
only = sys.argv[3:]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only:
        continue
    subprocess.check_call(["git", "-C", tree, "checkout", "-q", "--", "."])
    for f, old, new in s["edits"]:
        p = os.path.join(tree, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "tools/demokit", s["kit"]), os.path.join(d, "demo"))
    open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", tree, "diff"]))
    subprocess.check_call(["git", "-C", tree, "checkout", "-q", "--", "."])
    client = s["kit"] == "client"
    open(os.path.join(d, "demo", "main.mjs" if client else "src/main.rs"), "w").write(s["main"].lstrip("\n"))
    sh = open(os.path.join(V, "tools/demokit", "client.sh" if client else "demo.sh")).read().replace("@ID@", s["id"])
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(s["id"])
