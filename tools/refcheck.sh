#!/bin/bash
# Development aid: refcheck.sh REPO [ids]   all checks against a tree whose behaviour is unchanged; every one has to be quiet
ROOT=$(cd "$(dirname "$0")/.." && pwd); R=$1; shift; V=/tmp/refactor/verif
mkdir -p $V/mc; rm -rf $V/mc/src; cp -a $ROOT/mc/src $ROOT/mc/Cargo.* $V/mc/; cp $ROOT/known_findings.txt $ROOT/check.sh $V/
sed -i "s|/repo\"|$R\"|" $V/mc/Cargo.toml
for p in ${*:-$(seq -f C%02g 1 23)}; do
  s=$SECONDS; o=$(cd $V && MC_REPO=$R ./check.sh $p quick 2>&1); rc=$?
  echo "$p rc $rc $((SECONDS - s)) s"; [ $rc = 0 ] || echo "$o" | grep -v executions | tail -20
done
