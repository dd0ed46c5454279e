#!/bin/bash
# seedcheck.sh ID...: in a scratch copy of /repo: does the planted bug build, pass the tests, fail its demo, and get caught?
here=$(cd "$(dirname "$0")/.." && pwd)
export FSARCHS=linux64 FSCC=gcc FSCCFLAGS=-Wno-error
for id in "$@"; do
  d=$here/seeded/$id; t=$(mktemp -d /tmp/seedchk.XXXXXX)
  cp -a /repo/. "$t/"; rm -rf "$t/.git"
  cd "$t"; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $prop:"
  bash "$d/demo.sh" >/dev/null 2>&1; r="$r demo(base)=$?"
  patch -sp1 < "$d/patch.diff" || r="$r PATCHFAIL"
  scons -j8 >/dev/null 2>"$t/err" || { r="$r BUILDFAIL"; tail -5 "$t/err"; }
  mkdir -p "$t/vpw"; sed "s#\"/repo\"#\"$t\"#" /opt/vp/run_tests.py > "$t/rt.py"
  python3 "$t/rt.py" "$t/vpw" >"$t/rt.log" 2>&1
  fails=$(grep FAIL "$t/vpw/results.txt" | tr '\n' ' ')
  bash "$d/demo.sh" >/dev/null 2>&1; r="$r demo(bug)=$? tests:${fails:-ok}"
  out=$(cd "$here" && VERIF_REPO=$t timeout 900 python3 sa/check.py $prop quick 2>&1); rc=$?
  echo "$r check=$rc $(echo "$out" | tail -2 | head -1 | cut -c1-200)"
  cd /; rm -rf "$t"
done
