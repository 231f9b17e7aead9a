#!/bin/bash
# developer helper: run1.sh PROP SCEN [budget] ; uses binary in /tmp/mcb
GODEBUG=asyncpreemptoff=1 MC_BUDGET=${3:-5s} ${MCBIN:-/tmp/mcb/mc} run $1 $2 2>/tmp/mcb/stderr | grep -a MC-REPORT | sed 's/^MC-REPORT //' | python3 -c '
import json,sys
r=json.load(sys.stdin)
v=r.pop("violations") or []
r.pop("samples")
print({k:x for k,x in r.items() if x not in (0,False,None)})
for w in v:
    print("VIOL",w["kind"] if "kind" in w else "",w["msg"],w.get("case",""),w.get("devs"))
    if len(sys.argv)>1:
        print("\n".join(w.get("trace") or [])); print("\n".join(w.get("events") or [])); print((w.get("stack") or "")[:6000])
' $4
