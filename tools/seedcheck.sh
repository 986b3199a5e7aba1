#!/bin/bash
# seedcheck.sh ID...: validates planted bugs in a scratch copy, then runs the property's check against them (dev tool)
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 w=$(mktemp -d /tmp/seedXXXX); cp -a /repo $w/r; cd $w/r
 bash $d/demo.sh >/dev/null 2>&1; a=$?
 git apply $d/patch.diff || { echo "$id: patch does not apply"; }
 go build ./... || echo "$id: does not build"
 go test ./cli/receiver/server ./cli/receiver/config 2>&1 | grep -v "^ok" | head -5
 bash $d/demo.sh >/tmp/demo.out 2>&1; b=$?
 cd /verif; /tmp/symgo -repo $w/r -verif /tmp/seedverif -prop $p >/tmp/seed.out 2>&1; c=$?
 echo "$id $p demo $a/$b check $c $(grep -m1 violated: /tmp/seed.out | cut -c1-150)"; [ $b = 4 ] && cat /tmp/demo.out
 grep -m3 inconclusive /tmp/seed.out | cut -c1-200
 rm -rf "$w"
done
