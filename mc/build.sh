#!/bin/bash
# build.sh OUTDIR [race]: builds the harness binary OUTDIR/mc (or OUTDIR/mc.race)
# from /repo's current working tree and the controlled runtime.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
REPO=${REPO:-/repo}
. "$here/env.sh"
mkdir -p "$out"
python3 "$here/mkoverlay.py" "$GOROOT" "$out"
python3 - "$here" "$out" "$REPO" <<'PY'
import json, os, sys
here, out, repo = sys.argv[1:4]
o = json.load(open(out + "/std-overlay.json"))
for root, _, files in os.walk(here + "/h"):
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(root, f)
            o["Replace"][os.path.join(repo, "zz_verif", os.path.relpath(p, here + "/h"))] = p
# the command as a package which the harness can call
import re, glob
cmd = os.path.join(out, "cbcmd")
os.makedirs(cmd, exist_ok=True)
for f in glob.glob(cmd + "/*.go"):
    os.remove(f)
for f in sorted(glob.glob(repo + "/cmd/controllerbus/*.go")):
    if f.endswith("_test.go"):
        continue
    t = open(f).read()
    t = re.sub(r"(?m)^package main\b", "package cbcmd", t)
    t = re.sub(r"(?m)^func main\(\)", "func Main()", t)
    g = os.path.join(cmd, os.path.basename(f))
    open(g, "w").write(t)
    o["Replace"][os.path.join(repo, "zz_verif/cbcmd", os.path.basename(f))] = g
json.dump(o, open(out + "/overlay.json", "w"), indent=1)
PY
cp "$REPO/go.mod" "$out/go.mod"; cp "$REPO/go.sum" "$out/go.sum"
# the file notification library is replaced by one driven by the harness; the
# real one is available under another name, to compare them
rm -rf "$out/fsnotify" "$out/fsreal"; cp -r "$here/fsnotify" "$out/fsnotify"
cd "$REPO"
real=$(go list -m -f '{{.Dir}}' github.com/fsnotify/fsnotify)
mkdir -p "$out/fsreal"; (cd "$real"; cp --parents *.go go.mod internal/*.go "$out/fsreal/"); chmod -R u+w "$out/fsreal"
rm -f "$out"/fsreal/*_test.go
sed -i 's#github.com/fsnotify/fsnotify#verif.local/fsreal#' "$out"/fsreal/*.go "$out/fsreal/go.mod"
cat >> "$out/go.mod" <<EOF
require verif.local/fsreal v0.0.0
replace verif.local/fsreal => $out/fsreal
replace github.com/fsnotify/fsnotify => $out/fsnotify
EOF
flags=(-overlay "$out/overlay.json" -modfile "$out/go.mod" -vet=off)
go build -overlay "$out/overlay.json" -modfile "$out/go.mod" -buildvcs=false ${2:+-race} -o "$out/mc${2:+.race}" ./zz_verif/mc
