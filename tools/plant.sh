#!/bin/bash
# tools/plant.sh <id> <property>: turns the edit in the scratch copy /tmp/wt into seeded/<id>, and confirms it.
# The demo files must be in seeded/<id> already.
id=$1; prop=$2; d=/verif/seeded/$id; wt=/tmp/wt
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
mkdir -p $d
if git -C $wt diff --quiet; then git -C $wt apply $d/patch.diff; fi   # no edit: confirm the stored patch again
trap "git -C $wt checkout -q -- ." EXIT
git -C $wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
cd $wt || exit 1
go build ./... || { echo "NO BUILD"; exit 1; }
go test -vet=off -count=1 ./... 2>&1 | grep -E '^(FAIL|---)' && { echo "TESTS FAIL"; exit 1; }
bash $d/demo.sh >/tmp/demo.out 2>&1 && { echo "DEMO PASSES WITH BUG"; cat /tmp/demo.out; exit 1; }
tail -4 /tmp/demo.out
(cd /repo && bash $d/demo.sh >/tmp/demo2.out 2>&1) || { echo "DEMO FAILS ON CLEAN"; cat /tmp/demo2.out; exit 1; }
cd /verif; VERIF_REPO=$wt python3 run.py $prop > /tmp/plant.$id.out 2>&1; rc=$?
echo "== $id $prop rc=$rc: $(tail -3 /tmp/plant.$id.out | tr '\n' ' ' | cut -c1-300)"
