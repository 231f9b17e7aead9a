#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from a spec (id, prop, file edits, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
            diff = ""
            for f, edits in s["edits"].items():
                src = open("/repo/" + f).read()
                out = src
                for a, b in edits:
                    assert out.count(a) == 1, (s["id"], f, a, out.count(a))
                    out = out.replace(a, b)
                for side, txt in (("a", src), ("b", out)):
                    p = os.path.join(w, side, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").write(txt)
                r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=w, capture_output=True, text=True)
                diff += r.stdout
            assert diff, s["id"]
            open(d + "/patch.diff", "w").write(diff)
            imp = "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in s.get("imports", []))
            open(d + "/demo_test.go", "w").write("package demo\n\nimport (\n%s)\n\n%s" % (imp, s["demo"].lstrip("\n")))
            shutil.copy(V + "/tools/seed/help_test.go", d)
            shutil.copy(V + "/tools/seed/demo.sh", d)
            if s.get("race"):
                t = open(d + "/demo.sh").read().replace("go test ", "CGO_ENABLED=1 go test -race ")
                open(d + "/demo.sh", "w").write(t)
            if s.get("cbus"):
                t = open(d + "/demo.sh").read().replace("go test ", 'go build -o "$T/cbus" ./cmd/controllerbus || exit 2\ngo test ')
                open(d + "/demo.sh", "w").write(t)
            if s.get("plugin"):
                # the standard library's plugin package is replaced by a stand-in
                shutil.copy(V + "/tools/seed/plugin_stub.go.txt", d)
                t = open(d + "/demo.sh").read().replace('{"Replace": {', '{"Replace": {"$(go env GOROOT)/src/plugin/plugin.go": "$D/plugin_stub.go.txt", "$(go env GOROOT)/src/plugin/plugin_dlopen.go": "", "$(go env GOROOT)/src/plugin/plugin_stubs.go": "", ')
                open(d + "/demo.sh", "w").write(t)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(w)
        print(s["id"])
