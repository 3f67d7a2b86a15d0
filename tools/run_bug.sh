#!/bin/bash
# run_bug.sh ID PROP...: runs checks against a scratch copy of /repo with the planted bug
ID=$1; shift; S=/tmp/bugs/run_$ID
rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; cd "$S/repo" || exit 9
git apply "/verif/seeded/$ID/patch.diff" || exit 9
for P in "$@"; do
  (cd /verif && NM_REPO="$S/repo" SIM_EVIDENCE="$S" python3 check.py "$P" >"$S/$P.log" 2>&1; echo "$ID $P exit=$? $(tail -c 600 "$S/$P.log" | tr '\n' ' ')")
done
cd /; rm -rf "/tmp/bugs/run_$ID/repo"
