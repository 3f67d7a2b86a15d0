#!/bin/bash
# try_bug.sh ID [notest]: confirms a planted bug in a scratch copy of /repo
ID=$1; B=/verif/seeded/$ID; S=/tmp/bugs/$ID
rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; mkdir "$S/demo"; cp "$B"/* "$S/demo/"; rm -f "$S"/demo/*.diff "$S"/demo/meta.json
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8 LC_ALL=C.UTF-8
cd "$S/repo" || exit 9
timeout 300 bash "$S/demo/demo.sh" >"$S/demo0.log" 2>&1; D0=$?
git apply "$B/patch.diff" || { echo "$ID: patch does not apply"; exit 9; }
timeout 300 bash "$S/demo/demo.sh" >"$S/demo1.log" 2>&1; D1=$?
T=skipped
if [ "$2" != notest ]; then
  PYTHONPATH=/opt/vp/plugin timeout 800 /opt/venv/bin/python -m pytest -q -p nm_scope -p no:cacheprovider -p no:xdist --timeout=300 \
    --continue-on-collection-errors --ignore=neutrinomass/database/database_test.py --ignore=neutrinomass/database/export_test.py neutrinomass >"$S/test.log" 2>&1
  T=$(tail -1 "$S/test.log")
fi
echo "$ID: demo unchanged=$D0 patched=$D1; tests: $T"
cd /; rm -rf "/tmp/bugs/$ID/repo"
