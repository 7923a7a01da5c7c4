#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines a list S of dicts id, prop, edits [(file, old, new)], needs, breaks, pkg, demo (Go test body file)."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns["S"]:
    if only and s["id"] not in only: continue
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    subprocess.call("gofmt -l .", shell=True, cwd=w)
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "diff"], cwd=w, text=True))
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(V, "tools", "demo_template.sh")).read().replace("@PKG@/", s.get("pkg", "") + "/" if s.get("pkg") else "").replace("./@PKG@", "./" + s.get("pkg", "")).replace("$PWD/@PKG@", "$PWD"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go.txt"), "w").write(s["demo"].lstrip())
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
    subprocess.call([os.path.join(V, "tools", "seed.sh"), s["id"]])
