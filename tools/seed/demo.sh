#!/bin/bash
# Runs the demonstration in a package which exists only in an overlay of /repo.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat > "$T/o.json" <<J
{"Replace": {"$PWD/zz_demo/demo_test.go": "$D/demo_test.go", "$PWD/zz_demo/help_test.go": "$D/help_test.go"}}
J
go test -c -vet=off -overlay "$T/o.json" -o "$T/demo.test" ./zz_demo || { echo "build failed"; exit 2; }
cd "$T" && ./demo.test -test.run '^TestDemo$' -test.count=1 -test.timeout 200s
