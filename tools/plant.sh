#!/bin/bash
# plant.sh ID [packages to test]: turn the edits in the scratch copy /tmp/plant/repo into seeded/ID/patch.diff and
# confirm them: builds, demo fails with the patch and passes without, the packages' tests pass with it
set -u
. /opt/vp/env.sh
id=$1; shift
d=/verif/seeded/$id
r=/tmp/plant/repo
cd $r || exit 1
git add -A -N . ; git diff HEAD > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
go build $(packages) 2>&1 | grep -v "no non-test Go files" | tail -5
( timeout 300 bash $d/demo.sh ) > /tmp/plant/with.log 2>&1; w=$?
if [ $# -gt 0 ]; then MCOLLECTIVE_CERTNAME=rip.mcollective timeout 900 go test -vet=off -count=1 "$@" 2>&1 | grep -v '^ok' | grep -v 'no test files' | tail -15; fi
git checkout -q -- . ; git clean -fdq
( timeout 300 bash $d/demo.sh ) > /tmp/plant/without.log 2>&1; o=$?
echo "demo with patch: $w  without: $o"
git -C /repo apply --check $d/patch.diff && echo applies
[ $w -ne 0 ] && [ $o -eq 0 ] && python3 -m json.tool $d/meta.json >/dev/null && echo OK
