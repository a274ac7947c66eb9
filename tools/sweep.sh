#!/bin/bash
# sweep.sh "seeds" [checks...]: runs checks for several seeds, prints anything but success
seeds=$1; shift
cs=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}
cd "$(dirname "$0")/.."
for s in $seeds; do for c in $cs; do
  o=$(VERIF_SEED=$s timeout 900 /opt/venv/bin/python harness/check.py $c 2>&1); r=$?
  [ $r = 0 ] || { echo "seed $s $c rc=$r"; echo "$o" | tail -12; cp evidence/replay/$c-* /tmp/ 2>/dev/null; }
done; echo "seed $s done"; done
