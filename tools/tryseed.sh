#!/bin/bash
# tryseed.sh ID [checks...]: in a scratch copy, confirm a planted bug: builds, tests pass, demo 0 without and nonzero with it; run checks
id=$1; shift
d=/verif/seeded/$id
s=$(mktemp -d /tmp/seedXXXX); trap "rm -rf $s" EXIT
cp -a /repo $s/repo
cd $s/repo; git checkout -q -- .
cp -a $d $s/demo; rm -f $s/demo/*.diff $s/demo/meta.json
if [ -z "$NODEMO" ]; then
bash $s/demo/demo.sh > $s/o1 2>&1; r1=$?
fi
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NODEMO" ]; then
. /opt/vp/env.sh >/dev/null; cd $s/repo
export GOFLAGS="-mod=mod -modfile=$s/m.mod"; cp go.mod $s/m.mod; cp go.sum $s/m.sum
go build ./cmd/... ./util/... ./primitive/... ./proto/... || echo "$id: BUILD FAILS"
go test ./cmd/... ./primitive/... ./util > $s/t 2>&1 || { echo "$id: TESTS FAIL"; grep -E 'FAIL|panic' $s/t | head; }
unset GOFLAGS
bash $s/demo/demo.sh > $s/o2 2>&1; r2=$?
echo "$id: demo clean=$r1 patched=$r2"
[ $r1 = 0 ] || tail -15 $s/o1
[ $r2 != 0 ] || tail -15 $s/o2
[ -n "$V" ] && tail -15 $s/o2
fi
for c in "$@"; do VERIF_REPO=$s/repo /verif/check.sh $c > $s/c 2>&1; rc=$?; echo "$id: check $c -> $rc"; [ -n "$V" ] && head -${V} $s/c; done
exit 0
