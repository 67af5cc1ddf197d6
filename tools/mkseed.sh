#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": take the current /repo diff as seeded change ID, then undo it
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ]
git -C /repo checkout -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
P
