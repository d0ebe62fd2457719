#!/bin/bash
# try.sh SEED... : applies each planted change to /repo, runs its property's check, undoes it.
cd /verif && mkdir -p bin && (cd govc && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 go build -o ../bin/govc .) || exit 2
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  out=$(timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "== $s ($p) exit $rc $(( $(date +%s)-t0 ))s: $(echo "$out" | grep -E '^VIOLATION|failed obligation' | head -3 | tr '\n' '|')"
done
