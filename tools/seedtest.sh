#!/bin/bash
# seedtest.sh ID...: in a scratch copy of /repo seen at /repo (own mount namespace), apply each seeded patch, build, run the stable tests and both demos
for id in "$@"; do
S=/verif/seeded/$id; W=/tmp/wt/$id; L=/tmp/wt/$id.log; rm -rf "$W"; cp -a /repo "$W"
cp -r $S /tmp/wt/$id.demo; rm -f /tmp/wt/$id.demo/patch.diff /tmp/wt/$id.demo/meta.json
unshare -m bash -c "mount --make-rprivate /; mount --bind $W /repo; cd /repo; git apply $S/patch.diff || { echo $id: PATCH; exit; }
bash /tmp/wt/$id.demo/demo.sh >$L.b 2>&1; b=\$?
git apply -R $S/patch.diff; timeout 300 bash /tmp/wt/$id.demo/demo.sh >$L.a 2>&1; a=\$?; git apply $S/patch.diff
bash /opt/vp/build.sh >$L.build 2>&1 || { echo $id: BUILD FAILED; exit; }
bash /opt/vp/test.sh /tmp/wt/$id.json >$L.test 2>&1; echo $id: clean demo=\$a patched demo=\$b tests: \$(python3 -c \"import json;d=json.load(open('/tmp/wt/$id.json'));b=json.load(open('/opt/vp/BASELINE.json'));s=json.dumps(b);p=d['passed'];print(len(p),'passed',d['failed'])\")"
rm -rf "$W" /tmp/wt/$id.demo
done
