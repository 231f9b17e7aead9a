#!/bin/bash
# developer helper: all.sh PROP [budget]: runs all scenarios of PROP one after another
here=$(cd "$(dirname "$0")" && pwd)
for s in $(GODEBUG=asyncpreemptoff=1 ${MCBIN:-/tmp/mcb/mc} list | python3 -c 'import json,sys;print(*[i["Name"] for i in json.load(sys.stdin) if i["Prop"]==sys.argv[1]])' $1); do
echo "== $s"; $here/run1.sh $1 $s ${2:-3s} | sed "s/'prop'.*'scenario'[^,]*, //" | cut -c1-500; done
