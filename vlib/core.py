"""Runner: encodes harness + current /repo sources to LLVM bitcode, executes them
symbolically with symx, replays every counterexample natively, writes evidence."""
import os, sys, json, re, hashlib, subprocess, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'; RS = REPO + '/rad-sim'; SIM = RS + '/sim'; BS = SIM + '/noc/booksim'; DS = SIM + '/dram/DRAMsim3'; EX = RS + '/example-designs'
BUILD = V + '/build'; CACHE = BUILD + '/cache'; SYMX = BUILD + '/symx'
NCPU = os.cpu_count() or 4
CL = ['clang++', '-emit-llvm', '-c', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-threadsafe-statics', '-fno-access-control', '-w', '-std=c++17']
BSINC = [BS, BS + '/routers', BS + '/allocators', BS + '/arbiters', BS + '/networks', BS + '/power']
SIMINC = [SIM, SIM + '/noc'] + BSINC + [SIM + '/dram', DS, DS + '/src']
DSINC = [DS + '/src', DS + '/ext/headers', DS + '/ext/fmt/include']

class H:
    """one symbolic harness.  src: file under /verif/harness; srcs: real sources;
    variants: list of dicts of -D values (harness only), per tier."""
    def __init__(s, name, src, srcs=(), incs=(), flags=(), quick=None, thorough=None, variants=None, reach=(), bounds='', assumes=(), systemc=False, minisc_native=False, time=60, ttime=600, qtime=20000, gen=None, cflags=None, repo_defs=None, label_only=None, max_ins=None, max_viol=6, jobs=None, no_asan=False, kinds=None, opt=None, cwd_setup=None, labels=None, post=None):
        s.__dict__.update(locals()); del s.__dict__['s']
        s.srcs = list(srcs); s.incs = list(incs); s.flags = list(flags)
        s.vq = quick if quick is not None else (variants or [{}]); s.vt = thorough if thorough is not None else s.vq

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
class CompileError(Exception): pass
_locks = {}; _gl = threading.Lock()
def _lock(k):
    with _gl: return _locks.setdefault(k, threading.Lock())

def compile_bc(src, incs, flags, opt=None):
    os.makedirs(CACHE, exist_ok=True)
    cl = list(CL)
    if src.endswith('.c'): cl = ['clang', *[c for c in cl[1:] if c not in ('-fno-threadsafe-statics', '-fno-access-control', '-std=c++17')], '-std=gnu99']
    if opt: cl[cl.index('-O1')] = opt
    args = [*flags, *sum((['-I', i] for i in incs), [])]
    pp = subprocess.run([*[c for c in cl if c not in ('-c', '-emit-llvm')], '-E', src, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode: raise CompileError(pp.stderr.decode(errors='replace')[-3000:])
    key = hashlib.sha256(pp.stdout + ' '.join(cl).encode()).hexdigest()[:32]
    out = f'{CACHE}/{key}.bc'
    with _lock(key):
        if not os.path.exists(out):
            tmp = f'{CACHE}/{key}.{os.getpid()}.tmp'
            x = '.i' if src.endswith('.c') else '.ii'
            with open(tmp + x, 'wb') as f: f.write(pp.stdout)
            r = sh([*cl, tmp + x, '-o', tmp, *[f for f in flags if not f.startswith(('-D', '-include', '-U'))]])
            os.unlink(tmp + x)
            if r.returncode: raise CompileError(r.stdout[:2500])
            os.rename(tmp, out)
    return out

def dflags(d): return [f'-D{k}={v}' if v != '' else f'-D{k}' for k, v in d.items()]

class Ctx:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.seed = int(os.environ.get('VERIF_SEED', '1'))
        s.t0 = time.time(); s.viol = []; s.notes = []; s.runs = []; s.samples = []; s.known = []; s.assumptions = []
        s.work = f'{BUILD}/work/{prop}.{tier}.{os.getpid()}'
        shutil.rmtree(s.work, ignore_errors=True); os.makedirs(s.work)
        s.gen_cache = {}
    def note(s, m): s.notes.append(m); print('NOTE', m, flush=True)

def harness_incs(h, ctx):
    incs = []
    if h.gen:
        with _lock('gen'):
            if h.gen not in ctx.gen_cache: ctx.gen_cache[h.gen] = h.gen(ctx)
        incs += ctx.gen_cache[h.gen]
    return incs + h.incs

def build_bc(h, ctx, var, pool):
    incs = [V + '/harness'] + ([V + '/harness/minisc'] if h.systemc else []) + harness_incs(h, ctx)
    fl = h.flags + dflags(h.repo_defs or {})
    jobs = [pool.submit(compile_bc, V + '/harness/' + h.src, incs, fl + dflags(var) + ['-DSX_HARNESS'], h.opt), pool.submit(compile_bc, V + '/harness/rt.cpp', [], [], None)]
    jobs += [pool.submit(compile_bc, s, incs, fl, h.opt) if isinstance(s, str) else pool.submit(compile_bc, s[0], incs, fl + list(s[1]), h.opt) for s in h.srcs]
    bcs = [j.result() for j in jobs]
    out = f'{ctx.work}/{h.name}.{vname(var)}.bc'
    r = sh(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link', '-o', out, *dict.fromkeys(bcs)])
    if r.returncode: raise CompileError('link: ' + r.stdout[-2000:])
    return out

def vname(v):
    n = '_'.join(f'{k}{x}' for k, x in v.items()) or 'base'
    return n if len(n) <= 120 and not re.search(r'[;= ]', n) else n[:40].rstrip('_') + '~' + hashlib.md5(n.encode()).hexdigest()[:8]

def native_build(h, ctx, var, asan):
    d = f'{ctx.work}/native.{h.name}.{vname(var)}.{int(asan)}'; exe = d + '/replay'
    with _lock(d):
        if os.path.exists(exe): return exe
        os.makedirs(d, exist_ok=True)
        msc = h.systemc and h.minisc_native
        incs = [V + '/harness'] + ([V + '/harness/minisc'] if msc else []) + harness_incs(h, ctx)
        fl = ['-O1', '-g', '-w', '-std=c++17', '-fno-access-control', '-U_FORTIFY_SOURCE'] + [f for f in h.flags + dflags(h.repo_defs or {}) + sum((['-I', i] for i in incs), [])]
        if asan: fl += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,shift,signed-integer-overflow,vptr,enum,bool,float-cast-overflow']
        def one(a):
            i, (src, extra) = a; o = f'{d}/{i}.o'
            r = sh(['ccache', 'gcc' if src.endswith('.c') else 'g++', '-c', src, '-o', o, *[f for f in fl if not src.endswith('.c') or f not in ('-std=c++17', '-fno-access-control')], *extra], env={**os.environ, 'CCACHE_DIR': BUILD + '/ccache'})
            if r.returncode: raise CompileError(r.stdout[:2500])
            return o
        L = [(V + '/harness/' + h.src, dflags(var) + ['-DSX_HARNESS', '-DSX_NATIVE'])] + [(s, []) if isinstance(s, str) else (s[0], list(s[1])) for s in h.srcs] + [(V + '/harness/sx_native.cpp', ['-DSX_SYSTEMC'] if h.systemc and not msc else [])]
        with ThreadPoolExecutor(NCPU) as p: objs = list(p.map(one, enumerate(L)))
        r = sh(['g++', '-o', exe + '.t', *objs, *(['-fsanitize=address,undefined'] if asan else []), *(['-lsystemc'] if h.systemc and not msc else []), '-lpthread'])
        if r.returncode: raise CompileError('native link: ' + r.stdout[-3000:])
        os.rename(exe + '.t', exe)
    return exe

def native_run(h, ctx, var, exe, inputs, tag, timeout=60, env={}):
    rp = f'{ctx.work}/{tag}.in'
    with open(rp, 'w') as f:
        for n, o, v in inputs: f.write(f'{n} {o} {v}\n')
    cwd = f'{ctx.work}/{tag}.d'; os.makedirs(cwd, exist_ok=True)
    if h.cwd_setup: h.cwd_setup(ctx, cwd)
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, timeout=timeout, env={**os.environ, 'SX_REPLAY': rp, 'SC_COPYRIGHT_MESSAGE': 'DISABLE', 'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'halt_on_error=1', **env})
        out, rc = r.stdout.decode(errors='replace'), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
    return rc, out, rp

def verdict_native(kind, msg, rc, out):
    """does this native run exhibit the reported violation?"""
    if 'REPLAY-ASSUME-FALSE' in out: return False
    if 'REPLAY-FAIL' in out: return True
    if 'REPLAY-END' in out and rc == 0: return False
    if rc == 'timeout': return False
    if kind in ('check', 'fail'): return rc in (-11, 139)
    return rc != 0 or kind in ('exit', 'abort', 'assert', 'exception')

def run_variant(h, ctx, var, pool, jobs):
    name = f'{h.name}.{vname(var)}'
    st = {'harness': h.name, 'variant': var, 'status': 'ok'}
    try: bc = build_bc(h, ctx, var, pool)
    except CompileError as e:
        st.update(status='inconclusive', why='compile: ' + str(e)[:1500]); ctx.note(f'{name}: could not be encoded: {str(e)[:600]}'); return st
    out = f'{ctx.work}/{name}.out'; os.makedirs(out, exist_ok=True)
    tl = h.time if ctx.tier == 'quick' else h.ttime
    cwd = f'{ctx.work}/{name}.d'; os.makedirs(cwd, exist_ok=True)
    if h.cwd_setup: h.cwd_setup(ctx, cwd)
    cmd = [SYMX, '--out', out, '--time', str(tl), '--jobs', str(jobs), '--max-viol', str(h.max_viol), '--qtime', str(h.qtime)]
    if h.max_ins: cmd += ['--max-ins', str(h.max_ins)]
    log = open(f'{out}/log', 'w')
    try: subprocess.run(cmd + [bc], stdout=log, stderr=subprocess.STDOUT, timeout=tl + 60, cwd=cwd)
    except subprocess.TimeoutExpired: st['status'] = 'timeout'
    try: s = json.load(open(f'{out}/stats.json'))
    except Exception: st.update(status='inconclusive', why='no stats: ' + open(f'{out}/log').read()[-500:]); ctx.note(f'{name}: executor gave no statistics'); return st
    st['stats'] = s
    miss = [r for r in h.reach if not any(k == r for k in s['reach'])]
    st['reach_missing'] = miss
    if s['incomplete'] or s['timeouts'] or s['stopped']: st['status'] = 'partial'
    seen = {}
    for i in range(h.max_viol):
        f = f'{out}/viol.{i}.json'
        if not os.path.exists(f): break
        try: v = json.load(open(f), strict=False)
        except Exception as e: continue
        if h.kinds and v['kind'] not in h.kinds: continue
        if h.labels and v['kind'] in ('check', 'fail') and not re.search(h.labels, v['msg']): continue
        k = (v['kind'], v['msg']);
        if seen.get(k, 0) >= 2: continue
        seen[k] = seen.get(k, 0) + 1
        v['harness'] = name; v['id'] = f'{name}.{i}'
        # native replay
        try:
            asan = v['kind'] in ('memory', 'arithmetic') and not h.no_asan
            exe = native_build(h, ctx, var, asan)
            rc, o, rp = native_run(h, ctx, var, exe, v['inputs'], v['id'])
            v['native'] = {'rc': rc, 'out': o[-1500:]}; v['reproduced'] = verdict_native(v['kind'], v['msg'], rc, o)
        except CompileError as e: v['reproduced'] = False; v['native'] = {'rc': 'build', 'out': str(e)[:1500]}
        if v['reproduced']: ctx.viol.append((h, var, v))
        else: ctx.note(f"{name}: counterexample '{v['kind']}: {v['msg']}' did not reproduce natively ({v['native']['rc']}): {v['native']['out'][-300:]!r} at {v['stack'][:3]}"); st.setdefault('unreproduced', []).append({k: v[k] for k in ('kind', 'msg', 'stack')})
    # sampled paths
    sm = []
    for i in range(5):
        f = f'{out}/sample.{i}.json'
        if os.path.exists(f):
            try: sm.append(json.load(open(f))['inputs'])
            except Exception: pass
    st['samples'] = sm; st['validated'] = 0
    if sm and (ctx.tier == 'thorough' or os.environ.get('VERIF_XVAL')):
        try:
            exe = native_build(h, ctx, var, False)
            for i in range(int(os.environ.get('VERIF_RAND', 0))): # development aid
                rc, o, rp = native_run(h, ctx, var, exe, [], f'{name}.r{i}', env={'SX_RANDOM': str(i + 1)})
                if 'REPLAY-FAIL' in o or rc not in (0, 3): ctx.note(f'{name}: random native run {i+1} fails: rc={rc} {o[-200:]!r}')
            for i, inp in enumerate(sm):
                rc, o, rp = native_run(h, ctx, var, exe, inp, f'{name}.s{i}')
                if rc == 0 and 'REPLAY-END' in o: st['validated'] += 1
                else: ctx.note(f'{name}: sampled path disagrees natively: rc={rc} {o[-300:]!r}')
        except CompileError as e: ctx.note(f'{name}: native build failed: {str(e)[-300:]}')
    if h.post: h.post(h, ctx, var, st, pool, jobs)
    try: os.unlink(bc)
    except OSError: pass
    return st

def run_check(mod, tier):
    prop = mod.PROP; ctx = Ctx(prop, tier)
    try: return _run_check(mod, tier, ctx)
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(ctx.work, ignore_errors=True)

def load_known():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def _run_check(mod, tier, ctx):
    prop = ctx.prop; runs = []
    hs = []; only = os.environ.get('VERIF_HARNESS')
    for h in getattr(mod, 'HARNESSES', []):
        if only and not re.search(only, h.name): continue
        for v in (h.vq if tier == 'quick' else h.vt): hs.append((h, v))
    if hs:
        par = min(len(hs), NCPU); jobs = max(1, (NCPU + par // 2) // par) + (1 if par < NCPU else 0)
        with ThreadPoolExecutor(NCPU) as pool, ThreadPoolExecutor(par) as rp:
            runs = list(rp.map(lambda a: run_variant(a[0], ctx, a[1], pool, a[0].jobs or jobs), hs))
    extra = {}
    if hasattr(mod, 'custom') and not only: extra = mod.custom(ctx) or {}
    # verdict
    known = load_known(); rc = 0; nv = 0; seen = set()
    vd = f'{BUILD}/viol/{prop}'; shutil.rmtree(vd, ignore_errors=True)
    for h, var, v in ctx.viol:
        kf = None
        for k in known:
            if k.get('status', 'known') == 'known' and k['property'] == prop and re.search(k['match'], v['harness'] + '|' + v['kind'] + '|' + v['msg']): kf = k; break
        if kf:
            if kf['id'] not in seen: print(f"KNOWN-FINDING: property={prop} {kf['what']}"); seen.add(kf['id'])
            continue
        os.makedirs(vd, exist_ok=True)
        p = f"{vd}/{re.sub(r'[^A-Za-z0-9_.-]', '_', v['id'])[:120]}.json"
        json.dump({'property': prop, **{k: v[k] for k in v}}, open(p, 'w'), indent=1)
        if nv < 10: print(f"  {v['harness']}: {v['kind']}: {v['msg']}"); [print('     at', s) for s in v.get('stack', [])[:4]]; print('     inputs', v['inputs'][:24]); print(f'VIOLATION property={prop} replay={p}')
        nv += 1; rc = 1
    S = lambda k: sum(r['stats'][k] for r in runs if 'stats' in r)
    fns = {}; reach = {}
    for r in runs:
        for n, f in r.get('stats', {}).get('functions', []):
            if f and f.startswith(REPO): fns[n] = f[len(REPO) + 1:]
        for k, c in r.get('stats', {}).get('reach', {}).items(): reach[k] = reach.get(k, 0) + c
    hbounds = {}
    for h, v in hs: hbounds.setdefault(h.name, {'bounds': h.bounds, 'assumptions': list(h.assumes), 'variants': []})['variants'].append(vname(v))
    paths = S('paths'); ex = extra.get('coverage', {})
    cov = {'explanation': getattr(mod, 'EXPLAIN', '') or 'Bounded symbolic execution of the real code; every branch and assertion over symbolic values decided by Z3.',
           'states': paths + ex.get('paths', 0), 'transitions': S('forks') + S('checks') + ex.get('transitions', 0),
           'traces_validated_against_impl': sum(r.get('validated', 0) for r in runs) + len(ctx.viol) + ex.get('validated', 0),
           'exhaustive_within_bounds': bool(runs or ex) and all(r['status'] == 'ok' for r in runs) and ex.get('complete', True),
           'paths': paths + ex.get('paths', 0), 'instructions': S('instructions'), 'queries': S('queries') + ex.get('queries', 0), 'sat': S('sat') + ex.get('sat', 0), 'unsat': S('unsat') + ex.get('unsat', 0), 'unknown': S('unknown') + ex.get('unknown', 0),
           'solver_s': round(S('solver_s') + ex.get('solver_s', 0), 3), 'assertions_evaluated': S('checks') + ex.get('checks', 0), 'assertions_decided_by_solver': S('checks_solver') + ex.get('checks', 0),
           'functions_encoded': len(fns) + len(ex.get('functions', [])), 'functions': sorted(f'{n} [{f}]' for n, f in fns.items())[:400] + list(ex.get('functions', [])), 'reach': {**reach, **ex.get('reach', {})}, 'harnesses': {**hbounds, **ex.get('harnesses', {})},
           'runs': [{'harness': r['harness'], 'variant': r['variant'], 'status': r['status'], 'why': r.get('why'), 'reach_missing': r.get('reach_missing'), 'incomplete_why': r.get('stats', {}).get('incomplete_why'), 'paths': r.get('stats', {}).get('paths'), 'queries': r.get('stats', {}).get('queries'), 'solver_s': r.get('stats', {}).get('solver_s'), 'wall_s': r.get('stats', {}).get('wall_s'), 'unreproduced': r.get('unreproduced')} for r in runs],
           'samples': ([{'harness': r['harness'], 'inputs': s[:60]} for r in runs for s in r.get('samples', [])[:2]] + ex.get('samples', []))[:20] or ['(no completed path)'], 'notes': ctx.notes}
    ev = {'property': prop, 'tier': tier, 'seed': ctx.seed, 'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': cov, 'assumptions': sorted(set(sum((list(h.assumes) for h, _ in hs), []) + list(getattr(mod, 'ASSUMES', [])) + ctx.assumptions)), 'wall_s': round(time.time() - ctx.t0, 2), 'violations': nv}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for r in runs:
        s = r.get('stats', {})
        print(f"{r['harness']} {vname(r['variant'])}: {r['status']} paths={s.get('paths')} queries={s.get('queries')} checks={s.get('checks')} solver={s.get('solver_s')}s wall={s.get('wall_s')}s" + (f" MISSING-REACH {r['reach_missing']}" if r.get('reach_missing') else '') + (f" why={s.get('incomplete_why')}" if s.get('incomplete') else '') + (f" validated={r['validated']}" if r.get('validated') else ''))
    print(f"{prop} {tier}: {'VIOLATED' if rc else 'held'} in {ev['wall_s']}s (paths {cov['paths']}, queries {cov['queries']}, solver {cov['solver_s']}s)")
    return rc

def gen_for(*designs):
    """radsim_defines.hpp as the current config.py generates it for these designs"""
    def g(ctx):
        return [gen_headers(designs, ctx.work)]
    g.__name__ = 'gen_' + '_'.join(designs)
    return _gen_memo.setdefault(designs, g)
_gen_memo = {}

def run_config(designs, dest, cfgtext=None):
    """runs /repo's current config.py for the given designs in a scratch tree (cmake replaced by a no-op)"""
    os.makedirs(dest + '/sim/noc', exist_ok=True); os.makedirs(dest + '/bin', exist_ok=True)
    if not os.path.lexists(dest + '/example-designs'): os.symlink(EX, dest + '/example-designs')
    with open(dest + '/bin/cmake', 'w') as f: f.write('#!/bin/sh\nexit 0\n')
    os.chmod(dest + '/bin/cmake', 0o755)
    return sh(['python3', RS + '/config.py', *designs], cwd=dest, env={**os.environ, 'PATH': dest + '/bin:' + os.environ['PATH'], 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'})

def gen_headers(designs, work):
    k = hashlib.sha256(open(RS + '/config.py', 'rb').read() + b''.join(open(f'{EX}/{d}/config.yml', 'rb').read() for d in designs if os.path.exists(f'{EX}/{d}/config.yml'))).hexdigest()[:16]
    dest = f'{BUILD}/gen/{"_".join(designs)}.{k}'
    with _lock(dest):
        hdr = dest + '/sim/radsim_defines.hpp'
        if not os.path.exists(dest + '/inc/radsim_defines.hpp'):
            shutil.rmtree(dest, ignore_errors=True)
            r = run_config(list(designs), dest)
            if not os.path.exists(hdr): raise CompileError('config.py produced no header: ' + r.stdout[-800:])
            os.makedirs(dest + '/inc', exist_ok=True); shutil.copy(hdr, dest + '/inc/')
    return dest + '/inc'

def sys_tree(name, yml, files, work=None):
    """a scratch rad-sim tree for one made-up design: /repo's config.py turns yml into header, knobs and NoC configuration"""
    k = hashlib.sha256(open(RS + '/config.py', 'rb').read() + yml.encode() + repr(sorted(files.items())).encode()).hexdigest()[:16]
    dest = f'{BUILD}/gen/sys_{name}.{k}'
    with _lock(dest):
        if not os.path.exists(dest + '/inc/radsim_defines.hpp'):
            shutil.rmtree(dest, ignore_errors=True); dd = f'{dest}/example-designs/{name}'; os.makedirs(dd)
            for f, t in {'config.yml': yml, 'CMakeLists.txt': '', **files}.items(): open(f'{dd}/{f}', 'w').write(t)
            open(dest + '/CMakeLists.txt', 'w').close()
            r = run_config([name], dest); hdr = dest + '/sim/radsim_defines.hpp'
            if not os.path.exists(hdr) or not os.path.exists(dest + '/sim/radsim_knobs'): raise CompileError('config.py produced no header: ' + r.stdout[-800:])
            os.makedirs(dest + '/inc', exist_ok=True); shutil.copy(hdr, dest + '/inc/')
    return dest
def gen_sys(name, yml, files):
    def g(ctx): return [sys_tree(name, yml, files) + '/inc']
    g.__name__ = 'gen_sys_' + name
    return _gen_memo.setdefault((name, yml, repr(sorted(files.items()))), g)
NOCYML = '''config rad1:
  design:
    name: '{name}'
    noc_placement: ['{name}.place']
    clk_periods: [{mclk}]
noc:
  type: ['2d']
  num_nocs: 1
  clk_period: [{nclk}]
  payload_width: [{pw}]
  topology: ['{topo}']
  dim_x: [{k}]
  dim_y: [{k}]
  routing_func: ['{rf}']
  vcs: [{vcs}]
  vc_buffer_size: [{buf}]
  output_buffer_size: [{ob}]
  num_packet_types: [{npt}]
  router_uarch: ['iq']
  vc_allocator: ['{va}']
  sw_allocator: ['{sa}']
  credit_delay: [1]
  routing_delay: [{rd}]
  vc_alloc_delay: [1]
  sw_alloc_delay: [1]
noc_adapters:
  clk_period: [{aclk}]
  fifo_size: [{afs}]
  obuff_size: [{obs}]
  in_arbiter: ['fixed_rr']
  out_arbiter: ['priority_rr']
  vc_mapping: ['direct']
interfaces:
  max_axis_tdata_width: {dw}
  axis_tuser_width: {uw}
  max_axi_data_width: {adw}
  axi_user_width: {auw}
  axi_id_width: 8
cluster:
  sim_driver_period: {mclk}
  telemetry_log_verbosity: 2
  telemetry_traces: []
  num_rads: 1
  cluster_configs: ['rad1']
'''
NOCDEF = dict(mclk=2.0, nclk=1.0, aclk=1.0, pw=64, topo='mesh', k=2, rf='dim_order', vcs=1, buf=4, ob=4, npt=1, va='islip', sa='islip', rd=1, afs=4, obs=2, dw=64, uw=11, adw=64, auw=8)
def noc_yml(name, **kw): return NOCYML.format(name=name, **{**NOCDEF, **kw})
def noc_srcs(*exclude):
    import glob
    L = [SIM + '/' + x for x in ('design_context.cpp', 'radsim_config.cpp', 'radsim_module.cpp', 'radsim_telemetry.cpp', 'radsim_utils.cpp')] + sorted(glob.glob(SIM + '/noc/*.cpp')) + sorted(f for f in glob.glob(BS + '/*.cpp') + glob.glob(BS + '/*/*.cpp'))
    return [(f, []) for f in L if os.path.basename(f) not in exclude] + [BS + '/y.tab.c', BS + '/lex.yy.c']
