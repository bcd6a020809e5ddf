#!/bin/bash
# tryseed.sh [--tests] ID...: applies each planted change to a scratch copy and runs its property's check (and the stable tests) there
cd "$(dirname "$0")/.."
tests=0; [ "$1" = --tests ] && { tests=1; shift; }
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedrun.XXXXXX)
  cp -a /repo "$w/repo"; git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || echo "PATCH FAILS"
  if [ $tests = 1 ]; then
    (cd "$w/repo" && PROJECT_DIR_FRM="$w/repo" PYTHONPATH="$w/repo" MPLBACKEND=Agg MPLCONFIGDIR=$w/mpl TZ=UTC PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=$w/pyc NUMBA_CACHE_DIR=$w/numba /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/j.xml" tests > $w/t.txt 2>&1; tail -1 $w/t.txt
     python3 - "$w/j.xml" <<'P'
import sys, json, xml.etree.ElementTree as E
b = json.load(open('/opt/vp/BASELINE.json'))
t = E.parse(sys.argv[1]).getroot()
stable=set(b['stable']); bad = {(c.get('classname')+'::'+c.get('name')) for c in t.iter('testcase') if any(x.tag in ('failure','error') for x in c)}
print('stable failing:', sorted(bad & stable)[:6])
P
    )
  fi
  t0=$(date +%s)
  PROJECT_DIR_FRM="$w/repo" timeout 900 bash check.sh $p > "$w/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep VIOLATION $w/out | head -1)"
  rm -rf "$w"
done
