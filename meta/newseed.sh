#!/bin/bash
# meta/newseed.sh ID PROPERTY NEEDS BREAKS: record the edits made in /tmp/sr as planted bug ID (main.rs on stdin), then reset.
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/sr diff > $d/patch.diff
cp /verif/meta/seedtpl/demo.sh $d/demo.sh; cat > $d/main.rs
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
git -C /tmp/sr checkout -q -- .
[ -s $d/patch.diff ] || echo "EMPTY PATCH $1"
