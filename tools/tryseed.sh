#!/bin/bash
# tools/tryseed.sh ID [notest]: confirms seeded/ID in a scratch copy of /repo: applies, builds, stable tests pass, demo fails with it and passes without it; then runs the quick check of its property on it.
S=/verif/seeded/$1; R=/tmp/sb/r
if [ ! -d $R ]; then mkdir -p $R; (cd /repo; git archive HEAD) | tar x -C $R; (cd $R; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm base); fi
cd $R; git checkout -q -- .
D=$(mktemp -d); cp $S/* $D; rm -f $D/*.diff $D/meta.json
(timeout 300 bash $D/demo.sh >$D/o 2>&1); a=$?
git apply $S/patch.diff || { echo "$1: does not apply"; exit 1; }
(timeout 300 bash $D/demo.sh >$D/o2 2>&1); b=$?
echo "$1: demo clean=$a patched=$b $(tail -1 $D/o2 | cut -c1-150)"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != nocheck -a "$3" != nocheck ]; then (cd /verif; s=$(date +%s); VERIF_REPO=$R VERIF_SEED=1 timeout 900 python3 check.py $P quick >$D/c 2>&1; r=$?; echo "$1: check $P rc=$r $(( $(date +%s)-s ))s $(grep -c ^VIOLATION $D/c) $(grep -A3 -m1 '^VIOLATION' $D/c | cut -c1-300)"); fi
if [ "$2" != notest ]; then
cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPARLAY_TEST=On -DPARLAY_EXAMPLES=On -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest >$D/cfg 2>&1
if CC=gcc CXX=g++ ninja -C _build test/all examples/all >$D/bld 2>&1; then
mkdir -p $D/w; PARLAY_NUM_THREADS=8 python3 /opt/vp/run_gtests.py $R/_build/test $D/w $D/lines >/dev/null 2>&1; python3 /opt/vp/results.py $D/res.json lines:$D/lines >/dev/null 2>&1
python3 - $D/res.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1])); p=set(r['passed'])
m=[t for t in b if t not in p]; print("tests: missing",len(m),m[:5])
P
else echo "$1: BUILD FAILED"; tail -5 $D/bld; fi
fi
git checkout -q -- .; rm -rf $D
