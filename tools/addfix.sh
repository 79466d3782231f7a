#!/bin/bash
# addfix.sh PROP "subject" ["body"]: commits /repo's changes as a fix and records it
set -e
cd /repo
git commit -qam "fix: $2" -m "${3:-}"
H=$(git rev-parse --short HEAD)
python3 - "$1" "$H" "$2" <<'P'
import json,sys
p='/verif/known_findings.json'; k=json.load(open(p))
k['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4]))
json.dump(k,open(p,'w'),indent=1)
P
