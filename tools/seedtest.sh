#!/bin/bash
# seedtest.sh ID [nocheck] : confirm a planted bug in a scratch copy of /repo, then run its property's quick check against it.
# Prints: tests ok/FAIL, demo on clean tree, demo with the patch, the check's verdict.
id=$1; S=/verif/seeded/$id; W=/tmp/w/seed; mkdir -p $W
exec 9>$W/lock; flock 9
if [ ! -d $W/repo ]; then git clone -q /repo $W/repo; fi
cd $W/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build
build() { [ -f _build/build.ninja ] || CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null; ninja -C _build -j8 >$W/build.log 2>&1; }
H=$(git rev-parse HEAD)
mkdir -p $W/demo && rm -rf $W/demo/$id && cp -r $S $W/demo/$id && rm -f $W/demo/$id/patch.diff $W/demo/$id/meta.json
if [ "$(cat $W/clean.$id 2>/dev/null)" != "$H $(cat $S/demo* $S/*.cpp $S/*.hpp 2>/dev/null | md5sum)" ]; then
  build || { echo "$id: clean build failed"; exit 1; }
  timeout 300 bash $W/demo/$id/demo.sh >$W/d0.log 2>&1; r=$?
  if [ $r != 0 ]; then echo "$id: demo fails on clean tree ($r)"; tail -5 $W/d0.log; exit 1; fi
  echo "$H $(cat $S/demo* $S/*.cpp $S/*.hpp 2>/dev/null | md5sum)" > $W/clean.$id
fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
build || { echo "$id: patched build FAILED"; tail -20 $W/build.log; git checkout -q -f .; exit 1; }
python3 /opt/vp/run_doctest.py $W/repo/_build > $W/res.txt 2>/dev/null
python3 - $W/res.txt <<'P'
import json,sys
t=open(sys.argv[1]).read(); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in b if not any((x in l) and ('pass' in l.lower() or 'ok' in l.lower()) for l in t.splitlines())]
print('tests:', 'ok' if not bad else 'FAIL %s'%bad)
P
timeout 300 bash $W/demo/$id/demo.sh >$W/d1.log 2>&1; echo "demo with patch: $? ($(tail -1 $W/d1.log))"
if [ "$2" != nocheck ]; then
  P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  for p in $P; do (cd /verif && PARMCB_REPO=$W/repo timeout 900 python3 run.py $p 2>&1 | tail -3 | cut -c1-300); done
fi
git checkout -q -f .
