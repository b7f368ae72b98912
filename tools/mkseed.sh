#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS  (stdin: demo.cpp): packages the current diff of /tmp/w/edit (a clone of /repo) as a planted bug.
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.cpp; cp /verif/tools/demo/demo.hpp /verif/tools/demo/demo.sh $d/
git -C /tmp/w/edit diff > $d/patch.diff; git -C /tmp/w/edit checkout -q -f .
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
wc -l $d/patch.diff
