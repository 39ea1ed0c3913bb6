#!/bin/bash
# seedtest.sh ID...: verifies planted bugs in a scratch copy of /repo at /tmp/sw (own build, unit tests, demo with and without)
SW=/tmp/sw
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 CC=gcc CXX=g++ OMP_NUM_THREADS=2
J=${J:-8}
sync_tree() { # bring /tmp/sw to /repo's HEAD
  mkdir -p $SW; [ -d $SW/.git ] || git -C $SW init -q
  git -C /repo archive HEAD | tar x -C $SW
  git -C $SW add -A >/dev/null; git -C $SW -c user.email=a@b -c user.name=a commit -qm sync >/dev/null 2>&1
}
bld() { [ -d $SW/_build ] || cmake -S $SW -B $SW/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_UNIT_TESTING=ON -DENABLE_BENCHMARKING=OFF \
  -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DFETCHCONTENT_SOURCE_DIR_EIGEN=/opt/vp/shims/eigen >/tmp/sw_cmake.log 2>&1
  cmake --build $SW/_build -- -j $J > /tmp/sw_build.log 2>&1; }
tests() { rm -rf /tmp/sw_rep; mkdir -p /tmp/sw_rep; (cd $SW && python3 /opt/vp/run_gtest.py /tmp/sw_rep $SW/_build/libs/MeshKernel/tests/MeshKernelUnitTests $SW/_build/libs/MeshKernelApi/tests/MeshKernelApiUnitTests >/tmp/sw_test.log 2>&1
  python3 /opt/vp/results.py /tmp/sw_res.json lines:/tmp/sw_rep/results.txt >/dev/null
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/sw_res.json'))
st=set(b.get('stable_pass') or b.get('stable') or b.get('passed'))
m=sorted(st-set(t['passed'])); print('tests: %d stable, missing %d %s'%(len(st),len(m),m[:4])); raise SystemExit(1 if m else 0)
P
); }
[ "$1" = "--sync" ] && { sync_tree; bld && tests; exit; }
for id in "$@"; do
  D=/verif/seeded/$id; cd $SW && git checkout -q -- .
  git apply --check $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  if [ -z "$NOCLEAN" ]; then bld || { echo base build fails; continue; }; timeout 300 bash $D/demo.sh >/tmp/sw_demo0.log 2>&1; r0=$?; else r0=skip; fi
  git apply $D/patch.diff; if bld; then tests; rt=$?; timeout 300 bash $D/demo.sh >/tmp/sw_demo1.log 2>&1; r1=$?; else rt=nobuild; r1=x; tail -5 /tmp/sw_build.log; fi
  git checkout -q -- .
  echo "$id: demo base=$r0 patched=$r1 tests=$rt : $(tail -1 /tmp/sw_demo1.log)"
done
