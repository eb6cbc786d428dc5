#!/bin/bash
# tryseed.sh ID [PROP]: run the property's check on a scratch copy with the planted bug
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
d=$(mktemp -d /tmp/ts-XXXX); cp -a /repo/src /repo/Makefile.am $d/; (cd $d && git init -q . && git apply /verif/seeded/$id/patch.diff) || exit 9
VF_REPO=$d VF_KEEP=1 timeout 900 /verif/bin/check $prop > $d/log 2>&1; rc=$?
echo "[$rc] $id $prop: $(grep -E 'VIOLATION' $d/log | tail -1) $(grep -B1 VIOLATION $d/log | head -1 | cut -c1-200)"; [ $rc = 2 ] && grep INCONC $d/log | cut -c1-250
rm -rf "$d"
