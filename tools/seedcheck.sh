#!/bin/bash
# seedcheck.sh ID...: run the check of each seeded bug's property against a scratch copy of /repo with the bug applied
for id in "$@"; do S=/verif/seeded/$id; W=/tmp/wt/c.$id; rm -rf "$W"; mkdir -p $W; rsync -a --exclude=/_build /repo/ $W/
P=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
unshare -m bash -c "mount --make-rprivate /; mount --bind $W /repo; cd /repo; git apply $S/patch.diff || { echo $id: PATCH; exit; }; cd /verif; t=\$(date +%s); python3 check.py $P $TIER >/tmp/wt/c.$id.log 2>&1; echo $id: $P rc=\$? \$((\$(date +%s)-t))s \$(grep -c ^VIOLATION /tmp/wt/c.$id.log) \$(grep -m1 -B1 '     at\|     inputs' /tmp/wt/c.$id.log | head -1)"
rm -rf $W; done
