#!/bin/bash
# Developer tool: validates planted bugs in a scratch copy of /repo and runs the check of their property against them.
#   lab.sh ID...      each of /verif/seeded/ID: applies, original lines, builds, tests pass, demo, check catches it
W=${LAB:-/tmp/w}
R=$W/repo
if [ ! -d "$R" ]; then
  mkdir -p "$W"; git clone -q /repo "$R"
fi
git -C "$R" fetch -q /repo HEAD && git -C "$R" checkout -q -f FETCH_HEAD
bld() {
  (cd "$R" && export CC=/usr/bin/gcc CXX=/usr/bin/g++ && { [ -f _build/build.ninja ] || cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=RelWithDebInfo \
    "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g1" -DCMAKE_CXX_FLAGS=-DFMT_DEPRECATED_OSTREAM -DALTRO_BUILD_TESTS=ON -DALTRO_BUILD_EXAMPLES=ON \
    -DALTRO_BUILD_BENCHMARKS=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest; } && ninja -C _build -j8) >"$W/build.log" 2>&1
}
for id in "$@"; do
  S=/verif/seeded/$id
  git -C "$R" checkout -q -f . && git -C "$R" clean -qfd -e _build
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  rm -rf "$W/demo"; mkdir -p "$W/demo"; cp -r "$S"/. "$W/demo/"; rm -f "$W/demo"/*.diff "$W/demo"/meta.json
  if [ -z "$NODEMO" ]; then
    (cd "$R" && timeout 300 bash "$W/demo/demo.sh") >"$W/demo0.log" 2>&1; d0=$?
  else d0=skip; fi
  git -C "$R" apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  orig=$(git -C "$R" diff -U0 | python3 -c "
import sys,re,subprocess
f=None; tot=o=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        n=int(m.group(2) or 1)
        if n:
            b=subprocess.run(['git','-C','$R','blame','-s','-L',m.group(1)+',+'+str(n),'HEAD','--',f],capture_output=True,text=True).stdout.splitlines()
            base=subprocess.run(['git','-C','$R','rev-parse','--short=7','f0b42e1'],capture_output=True,text=True).stdout.strip()
            tot+=len(b); o+=sum(x.lstrip('^').startswith(base) for x in b)
print('%d/%d'%(o,tot))")
  if [ -z "$NODEMO" ]; then
    if bld; then
      t=$(cd "$R/_build" && ctest -j8 -E '^TimerTest\.' 2>&1 | grep -E 'tests (passed|failed)')
      (cd "$R" && timeout 300 bash "$W/demo/demo.sh") >"$W/demo1.log" 2>&1; d1=$?
    else t="BUILD FAILED"; d1=-; fi
  fi
  if [ -z "$NOCHECK" ]; then
    for p in ${PROP:-$prop}; do
      s0=$(date +%s)
      c=$(cd ${VD:-/verif} && SIM_REPO="$R" VERIF_SEED=1 timeout 900 python3 check.py $p 2>&1 | grep -E '^VIOLATION|held|undecided|no answer|KNOWN' | head -2 | cut -c1-200); 
      echo "   check $p: $c ($(( $(date +%s) - s0 )) s)"
    done
  fi
  echo "$id [$prop] orig lines $orig demo unchanged=$d0 patched=$d1 tests: $t"
  git -C "$R" checkout -q -f .
done
