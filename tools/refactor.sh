#!/bin/bash
# refactor.sh REPO [checks...]: runs all checks against a copy of the repository whose behaviour should be unchanged
repo=$1; shift
cs=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}
cd "$(dirname "$0")/.."
for c in $cs; do
  o=$(VERIF_REPO=$repo VERIF_EVID=/tmp/ev_ref timeout 900 /opt/venv/bin/python harness/check.py $c 2>&1); r=$?
  [ $r = 0 ] && echo "$c quiet" || { echo "$c rc=$r"; echo "$o" | tail -8; }
done
