#!/bin/bash
# seeddemo.sh ID...: make a demo from the first violation the property's check finds
cd /verif
for id in "$@"; do P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); rm -f build/viol/$P/*; tools/seedcheck.sh $id
f=$(ls build/viol/$P/*.json | head -1); [ -n "$f" ] || continue
python3 - "$f" $id $P <<'P'
import json,sys,subprocess,importlib.util; sys.path.insert(0,'/verif'); from vlib import core
d=json.load(open(sys.argv[1])); id,P=sys.argv[2:]; open('/tmp/mk.in','w').writelines(f'{n} {o} {v}\n' for n,o,v in d['inputs'])
sp = importlib.util.spec_from_file_location('c', f'/verif/checks/{P}.py'); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
for h in m.HARNESSES:
  for v in h.vq:
    if f'{h.name}.{core.vname(v)}'==d['harness']: subprocess.check_call(['python3','/verif/tools/mkdemo.py',id,P,h.name,repr(v),'/tmp/mk.in'])
P
done
