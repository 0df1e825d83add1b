#!/bin/bash
# usage: stable.sh DIR...: does the repository's test suite still pass with each planted bug? (scratch copy in /tmp/strepo)
R=/tmp/strepo; C=/tmp/strepo.cmake; B=/tmp/strepo.build
mkdir -p $C $B
[ -d $R ] || git clone -q /repo $R
sed "s#set(REPO /repo)#set(REPO $R)#" /opt/vp/cmake/CMakeLists.txt > $C/CMakeLists.txt
for d in "$@"; do
  D=$(cd "$d" && pwd)
  ( cd $R && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply "$D/patch.diff" ) || { echo "$d: PATCH FAILS"; continue; }
  ( cmake -S $C -B $B -G Ninja -DCMAKE_BUILD_TYPE= && ninja -C $B -j8 ) > /tmp/st.log 2>&1 || { echo "$d: DOES NOT BUILD"; grep -m3 error: /tmp/st.log; continue; }
  rm -rf $B/reports; mkdir -p $B/reports
  OMP_NUM_THREADS=4 ctest --test-dir $B -j2 --timeout 300 > /tmp/st.test 2>&1
  python3 /opt/vp/results.py /tmp/st.json "junit:$B/reports/*.xml" 
  python3 - "$d" <<'P'
import json,sys
r=json.load(open('/tmp/st.json')); b=json.load(open('/opt/vp/BASELINE.json')); b=b['stable']
miss=[x for x in b if x not in r['passed']]
print(sys.argv[1], "stable tests pass" if not miss else f"CAUGHT BY TESTS {miss}")
P
done
( cd $R && git checkout -q -- . )
