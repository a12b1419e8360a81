#!/usr/bin/env python3
"""mkdemo.py SEED PROP HARNESS 'VARIANT-DICT' INPUTS: a demo for a seeded bug: the harness, run natively on one input"""
import sys, os, json, shutil, importlib.util, re
sys.path.insert(0, '/verif'); from vlib import core
seed, prop, hn, var, inp = sys.argv[1:6]; var = eval(var); D = f'/verif/seeded/{seed}'
sp = importlib.util.spec_from_file_location('c', f'/verif/checks/{prop}.py'); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
h = [x for x in m.HARNESSES if x.name == hn][0]; v = [x for x in h.vq if all(x.get(k) == y for k, y in var.items())][0]
ctx = core.Ctx(prop, 'quick'); incs = core.harness_incs(h, ctx); gens = [i for i in incs if i.startswith('/verif/build/gen')]
for f in os.listdir(D):
    if f not in ('patch.diff', 'meta.json'): (shutil.rmtree if os.path.isdir(f'{D}/{f}') else os.remove)(f'{D}/{f}')
def need(f, got):
    if f in got or not os.path.exists('/verif/harness/' + f): return
    got.add(f)
    for l in re.findall(r'#include "([^"]+)"', open('/verif/harness/' + f).read()): need(l, got)
got = set(); need(h.src, got); need('sx_native.cpp', got)
for f in got: shutil.copy('/verif/harness/' + f, D)
g = ''
if gens:
    root = '/'.join(gens[0].split('/')[:5]); shutil.copytree(root, D + '/gen', symlinks=True, ignore=lambda d, fs: [f for f in fs if os.path.islink(d + '/' + f)]); g = f'cp -r "$D/gen" "$T/gen"; grep -rl {root} "$T/gen" | xargs -r sed -i "s#{root}#$T/gen#g"\n'
if h.cwd_setup: os.makedirs(D + '/cwd'); h.cwd_setup(ctx, D + '/cwd')
shutil.copy(inp, D + '/input.txt')
R = lambda p: p.replace(root, '$T/gen').replace('/repo', '$R') if gens else p.replace('/repo', '$R')
fl = [f for f in h.flags if 'MINISC' not in f] + core.dflags(h.repo_defs or {})
q = lambda s: "'" + s + "'" if re.search(r"[<>(){}]", s) else s
srcs = [(R(s), '') if isinstance(s, str) else (R(s[0]), ' '.join(s[1])) for s in h.srcs]
s = '''#!/bin/bash
# runs the real code on one recorded input; exit 0: it behaves, 1: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; cd "$T" || exit 2
''' + g + f'''F="-O1 -w -std=c++17 -fno-access-control -I$D {' '.join('-I' + R(i) for i in incs)} {' '.join(fl)}"
cat >jobs <<EOF
g++ -c $F {' '.join(q(x) for x in core.dflags(v))} -DSX_HARNESS -DSX_NATIVE $D/{h.src} -o 0.o
g++ -c $F {'-DSX_SYSTEMC' if h.systemc else ''} $D/sx_native.cpp -o 1.o
''' + ''.join(f"{'gcc' if p.endswith('.c') else 'g++'} -c {'$F' if not p.endswith('.c') else '${F//-std=c++17/}'} {e} {p} -o {i + 2}.o\n" for i, (p, e) in enumerate(srcs)) + f'''EOF
xargs -P 8 -d '\\n' -I{{}} bash -c '{{}}' <jobs || exit 2
g++ *.o {'-lsystemc' if h.systemc else ''} -lpthread -o demo || exit 2
mkdir run; {'cp -r "$D/cwd/." run/; ' if h.cwd_setup else ''}cd run; SX_REPLAY="$D/input.txt" SC_COPYRIGHT_MESSAGE=DISABLE timeout 60 ../demo >../out 2>&1; tail -3 ../out; grep -q REPLAY-END ../out
'''
open(D + '/demo.sh', 'w').write(s); shutil.rmtree(ctx.work); print(D, v)
