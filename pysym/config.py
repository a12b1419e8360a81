"""P27: rad-sim/config.py executed symbolically on symbolic YAML documents"""
import sys, os, re, json, math, time, types, io, tempfile, subprocess, shutil, traceback
import z3, pysym as P
from pysym import S, B
SRC = sys.argv[1]; TIER = sys.argv[2]; WORK = sys.argv[3]
ROOT = '/pysym-root'; DES = {'a': 'da', 'b': 'db'}
src = open(SRC).read(); code = compile(src, SRC, 'exec')
FLIT = ["read_request", "write_request", "write_data", "read_reply", "write_reply"]
class Ctx: pass
# ---- the YAML document: structure concrete, every number a variable
def document(sc, num, pick):
    """num(name, lo, hi, real): a number; pick(name, options): one of several texts"""
    n = sc['nocs']; L = lambda nm, lo, hi, real=False: [num(f'{nm}{i}', lo, hi, real) for i in range(n)]
    topo = [pick(f'topology{i}', sc.get('topos', [sc['topo']] * n)[i]) for i in range(n)]; typ = [pick(f'type{i}', sc['type']) if topo[i] == 'mesh' else '2d' for i in range(n)]
    npt = [int(pick(f'npt{i}', [str(k + 1) for k in range(sc.get('nptmax', 5))])) for i in range(n)]; per = L('per', 1, sc.get('permax', 8)); vcs = [npt[i] * per[i] if not sc.get('badvcs') else num(f'vcs{i}', 1, 20) for i in range(n)]
    noc = {'type': typ, 'num_nocs': n, 'clk_period': L('nclk', 1, 100, True), 'payload_width': L('pw', 1, 2048), 'topology': topo, 'dim_x': L('x', 2, sc.get('dimmax', 16)), 'dim_y': L('y', 2, sc.get('dimmax', 16)), 'routing_func': [f'rf{i}' for i in range(n)], 'vcs': vcs, 'vc_buffer_size': L('buf', 1, 64), 'output_buffer_size': L('ob', 0, 64), 'num_packet_types': npt, 'router_uarch': [f'ua{i}' for i in range(n)], 'vc_allocator': [f'va{i}' for i in range(n)], 'sw_allocator': [f'sa{i}' for i in range(n)], 'credit_delay': L('cd', 0, 9), 'routing_delay': L('rd', 0, 9), 'vc_alloc_delay': L('vd', 0, 9), 'sw_alloc_delay': L('sd', 0, 9)}
    if sc.get('anynet'): noc['num_nodes'] = L('nodes', 2, 256); noc['anynet_file'] = [f'net{i}' for i in range(n)]
    elif sc.get('nodes0'): noc['num_nodes'] = [0] * n
    ad = {'clk_period': L('aclk', 1, 100, True), 'fifo_size': L('afs', 1, 64), 'obuff_size': L('obs', 1, 64), 'in_arbiter': [f'ia{i}' for i in range(n)], 'out_arbiter': [f'oa{i}' for i in range(n)], 'vc_mapping': [f'vm{i}' for i in range(n)]}
    cfg = {}; W = pick('tdw', ['128', '512', '100']) if sc.get('bw') else None; T = pick('period', ['5.0', '0.5', '3.25']) if sc.get('bw') else None # concrete where a bandwidth is worked out: everything stays linear
    for c in sc['configs']: 
        nc = num(f'{c}ctl', 0, 9); cfg[c] = {'dram': {'num_controllers': nc, 'clk_periods': [num(f'{c}dclk{i}', 1, 100, True) for i in range(2)], 'queue_sizes': [num(f'{c}q{i}', 1, 256) for i in range(2)], 'config_files': [f'{c}f0', f'{c}f1']}, 'design': {'name': DES[c], 'noc_placement': [f'{c}.place'], 'clk_periods': [num(f'{c}mclk{i}', 1, 100, True) for i in range(3)]}}
    intf = {'max_axis_tdata_width': int(W) if W else num('tdw', 1, 2048), 'axis_tuser_width': num('tuw', 1, 200), 'max_axi_data_width': num('adw', 1, 2048), 'axi_user_width': num('auw', 1, 200), 'axi_id_width': num('aiw', 1, 32)}
    cl = {'sim_driver_period': float(T) if T else num('period', 1, 100, True), 'telemetry_log_verbosity': num('verb', 0, 3), 'telemetry_traces': ['t0', 't1'], 'num_rads': len(sc['rads']), 'cluster_configs': list(sc['rads']), 'cluster_topology': 'all-to-all', 'inter_rad_latency': num('lat', 1, 5000, True), 'inter_rad_fifo_num_slots': num('slots', 1, 2000)}
    if sc.get('bw'): m = num('bwm', 1, 1200); cl['inter_rad_bw'] = sc['frac'](m, intf['max_axis_tdata_width'], cl['sim_driver_period'])
    else: cl['inter_rad_bw'] = sc['frac'](1000, intf['max_axis_tdata_width'], cl['sim_driver_period'])
    if sc.get('omit'): del cfg[sc['omit']]['dram']
    secs = [(f'config {c}', cfg[c]) for c in sc['configs']]; sh = [('noc', noc), ('noc_adapters', ad), ('interfaces', intf)]
    doc = dict((sh + secs if sc.get('late') else secs + sh) + [('cluster', cl)])
    if sc.get('typo'):
        k = pick('typo', sc['typo']); t = doc
        for x in k.split('/')[:-1]: t = t[x]
        t[k.split('/')[-1]] = num('typoval', 0, 9)
    return doc
# ---- what the generated files must say; works on symbolic text and on the real files alike
class Fail(Exception): pass
def spec(sc, doc, outcome, files, num, ck, root):
    """num(text) -> number or None; ck(condition, label)"""
    n = sc['nocs']; noc = doc['noc']; ad = doc['noc_adapters']; cl = doc['cluster']; it = doc['interfaces']
    if sc.get('typo'): ck(outcome == 'exit', 'an unknown parameter is refused'); return 'refused'
    valid = all_(le(noc['num_packet_types'][i], 5) for i in range(n)); valid = and_(valid, all_(divides(noc['num_packet_types'][i], noc['vcs'][i]) for i in range(n)))
    if outcome == 'exit': ck(not_(valid), 'a valid configuration is accepted'); return 'refused'
    if outcome != 'ok': ck(False, 'the script handles every configuration'); return 'crash'
    ck(valid, 'a configuration whose virtual channels cannot be divided among the packet types is refused')
    def txt(t, want): # a word of text against a number or a text
        if isinstance(want, str): return t == want
        v = num(t); return v is not None and eq(v, want)
    def words(ts, want, label): ck(len(ts) == len(want), label); [ck(txt(t, w), label) for t, w in zip(ts, want)]
    side = [ite(gt(noc['dim_x'][i], noc['dim_y'][i]), noc['dim_x'][i], noc['dim_y'][i]) for i in range(n)]; nodes = [noc['num_nodes'][i] if sc.get('anynet') else side[i] * side[i] * (4 if noc['type'][i] == '3d' else 1) for i in range(n)]
    lines = [l.split(' ') for l in files.get('sim/radsim_knobs', '').split('\n') if l.strip()]; lines = [[w for w in l if w] for l in lines]
    shared = {l[0]: l[1:] for l in lines}
    for r, c in enumerate(sc['rads']):
        cf = doc[f'config {c}']; want = {'noc_num_nocs': [n], 'noc_clk_period': noc['clk_period'], 'noc_vcs': noc['vcs'], 'noc_payload_width': noc['payload_width'], 'noc_num_nodes': nodes, 'noc_adapters_clk_period': ad['clk_period'], 'noc_adapters_fifo_size': ad['fifo_size'], 'noc_adapters_obuff_size': ad['obuff_size'], 'noc_adapters_in_arbiter': ad['in_arbiter'], 'noc_adapters_out_arbiter': ad['out_arbiter'], 'noc_adapters_vc_mapping': ad['vc_mapping'], 'design_name': [cf['design']['name']], 'design_noc_placement': cf['design']['noc_placement'], 'design_clk_periods': cf['design']['clk_periods'],  'radsim_user_design_root_dir': [root + '/example-designs/' + cf['design']['name']]}
        dr = cf.get('dram'); want.update({'dram_num_controllers': [dr['num_controllers']], 'dram_clk_periods': dr['clk_periods'], 'dram_queue_sizes': dr['queue_sizes'], 'dram_config_files': dr['config_files']} if dr else {'dram_num_controllers': [0]})
        for k, w in want.items():
            ls = [l for l in lines if l[0] == k and len(l) > 1 and l[1] == str(r)]; ck(len(ls) == 1, 'every device gets each of its knobs once')
            if len(ls) == 1: words(ls[0][2:], w, 'a device gets the knob values of its own configuration')
        for i in range(n):
            t = files.get(f'sim/noc/noc{i}_rad{r}_config'); ck(t is not None, 'every NoC of every device gets a BookSim configuration')
            if t is None: continue
            kv = dict(re.findall(r'^\s*(\w+)\s*=\s*([^;]*?)\s*;', t, re.M)); exp = {'topology': 'anynet' if sc.get('anynet') else 'cmesh' if noc['type'][i] == '3d' else noc['topology'][i], 'routing_function': noc['routing_func'][i], 'num_vcs': noc['vcs'][i], 'vc_buf_size': noc['vc_buffer_size'][i], 'output_buffer_size': noc['output_buffer_size'][i], 'router': noc['router_uarch'][i], 'vc_allocator': noc['vc_allocator'][i], 'sw_allocator': noc['sw_allocator'][i], 'credit_delay': noc['credit_delay'][i], 'routing_delay': noc['routing_delay'][i], 'vc_alloc_delay': noc['vc_alloc_delay'][i], 'sw_alloc_delay': noc['sw_alloc_delay'][i]}
            if sc.get('anynet'): exp['network_file'] = noc['anynet_file'][i]
            else: exp.update(k=side[i], n=2)
            if noc['type'][i] == '3d': exp['c'] = 4
            for k, w in exp.items(): ck(k in kv and txt(kv[k], w), 'a BookSim configuration describes its own NoC')
            nxt = 0; types = [f for f in FLIT if f + '_begin_vc' in kv or f + '_end_vc' in kv]; ck(types == FLIT[:len(types)] and eq(len(types), noc['num_packet_types'][i]), 'every packet type gets virtual channels')
            for f in types:
                b, e = num(kv.get(f + '_begin_vc', '')), num(kv.get(f + '_end_vc', '')); ck(b is not None and e is not None and eq(b, nxt), 'the packet types partition the virtual channels')
                if e is None: break
                ck(eq((e - nxt + 1) * len(types), noc['vcs'][i]), 'the packet types get equal shares of the virtual channels'); nxt = e + 1
    for k in ('sim_driver_period', 'telemetry_log_verbosity', 'num_rads', 'inter_rad_fifo_num_slots'): words(shared.get(k, []), [cl[k]], 'shared knobs are passed on')
    words(shared.get('telemetry_traces', []), cl['telemetry_traces'], 'shared knobs are passed on')
    t = shared.get('inter_rad_latency_cycles', []); v = num(t[0]) if len(t) == 1 else None; ck(v is not None and and_(le(cl['inter_rad_latency'], v * cl['sim_driver_period']), lt((v - 1) * cl['sim_driver_period'], cl['inter_rad_latency'])), 'the inter-RAD latency is rounded up to whole cycles')
    a, b = [num((shared.get(k) or [''])[0]) for k in ('inter_rad_bw_accept_cycles', 'inter_rad_bw_total_cycles')]; ck(a is not None and b is not None, 'the inter-RAD bandwidth is passed on')
    if a is not None and b is not None:
        m = sc['m'](doc); ck(lt(0, b), 'the inter-RAD bandwidth is passed on') # m thousandths of a beat per cycle
        if truth(le(m, 1000)): ck(eq(a * 1000, b * m), 'the share of cycles that accept a beat is the bandwidth over a beat per cycle')
        else: ck(eq(a, b), 'a bandwidth above a beat per cycle gives a beat per cycle')
    h = files.get('sim/radsim_defines.hpp', ''); d = dict(re.findall(r'^\s*#\s*define\s+(\w+)\s+(\S+)\s*$', h, re.M)); D = lambda k: num(d.get(k, ''))
    for k, w in (('AXIS_MAX_DATAW', it['max_axis_tdata_width']), ('AXI4_MAX_DATAW', it['max_axi_data_width']), ('AXIS_USERW', it['axis_tuser_width']), ('AXI4_USERW', it['axi_user_width']), ('AXI4_IDW', it['axi_id_width'])): ck(D(k) is not None and eq(D(k), w), 'the header has the configured interface widths')
    p = D('NOC_LINKS_PAYLOAD_WIDTH'); ck(p is not None and and_(all_(le(x, p) for x in noc['payload_width']), any_(eq(x, p) for x in noc['payload_width'])), 'the link payload is that of the widest NoC')
    def pow2(k): k = D(k); return None if k is None else 2 ** int(k)
    for k, xs, l in (('NOC_LINKS_VCID_WIDTH', noc['vcs'], 'a virtual channel number fits its field'), ('AXIS_DEST_FIELDW', nodes, 'a node number fits its field'), ('AXI4_NODE_ADDRW', nodes, 'a node number fits its field')):
        w = pow2(k); ck(w is not None, l); 
        if w is not None: [ck(le(x, w), l) for x in xs]
    f, w = D('AXIS_DEST_FIELDW'), D('NOC_LINKS_DEST_WIDTH'); ck(f is not None and w is not None and eq(w, f * 3), 'a destination has room for a device and two nodes')
    ck(('SINGLE_RAD' in d) == (len(sc['rads']) == 1) or bool(re.search(r'^\s*#\s*define\s+SINGLE_RAD', h, re.M)) == (len(sc['rads']) == 1), 'the header says whether there is a single device')
    mn = files.get('sim/main.cpp', ''); made = {}
    for m in re.finditer(r'new\s+(\w+)_system\s*\(([^;]*)\)\s*;', mn):
        q = re.search(r'all_rads\s*\[\s*(\d+)\s*\]', m.group(2))
        if q: made.setdefault(int(q.group(1)), []).append(m.group(1))
    if not made: raise P.Unsupported('main.cpp does not instantiate devices one by one')
    for r, c in enumerate(sc['rads']): ck(made.get(r) == [DES[c]], 'every device simulates the design of its configuration'); ck(re.search(r'#\s*include\s*[<"]' + DES[c] + '_system.hpp', mn) is not None, 'every design is included')
    ck(sorted(made) == list(range(len(sc['rads']))), 'every device is instantiated once'); q = re.search(r'#\s*define\s+NUM_RADS\s+(\S+)', mn); ck(q is not None and txt(q.group(1), len(sc['rads'])), 'the number of devices is passed on')
    return 'ok'
def z(x): return x if isinstance(x, (bool, z3.BoolRef)) else x.e
def mk(op, py):
    def f(a, b):
        if isinstance(a, S) or isinstance(b, S): return op(*P.both(a, b))
        return py(a, b)
    return f
eq = mk(lambda a, b: a == b, lambda a, b: abs(a - b) < 1e-9); le = mk(lambda a, b: a <= b, lambda a, b: a <= b + 1e-9); lt = mk(lambda a, b: a < b, lambda a, b: a < b); gt = mk(lambda a, b: a > b, lambda a, b: a > b)
def and_(*c): return z3.And(*c) if any(isinstance(x, z3.BoolRef) for x in c) else all(c)
def all_(c): return and_(*list(c))
def any_(c): c = list(c); return z3.Or(*c) if any(isinstance(x, z3.BoolRef) for x in c) else any(c)
def not_(c): return z3.Not(c) if isinstance(c, z3.BoolRef) else not c
def ite(c, a, b): return S(z3.If(c, *P.both(a, b))) if isinstance(c, z3.BoolRef) else (a if c else b)
def divides(a, b): return (S._mod(b, a) == 0) if isinstance(a, S) or isinstance(b, S) else b % a == 0
def truth(c): return bool(B(c)) if isinstance(c, z3.BoolRef) else bool(c)
def frac(m, width, period): # a bandwidth of m/1000 beats per cycle, in bits per ns
    return (m * width / period) / 1000
def thousandths(doc): cl = doc['cluster']; return S(P.both(cl['inter_rad_bw'] * cl['sim_driver_period'] * 1000 / doc['interfaces']['max_axis_tdata_width'], 1.0)[0]) if isinstance(cl['inter_rad_bw'], S) else round(cl['inter_rad_bw'] * cl['sim_driver_period'] * 1000 / doc['interfaces']['max_axis_tdata_width'])
# ---- running the script on a document
class Out:
    def __init__(s, files, k): s.files, s.k = files, k; files[k] = ''
    def write(s, t): s.files[s.k] += t; return len(t)
    def writelines(s, ls): [s.write(l) for l in ls]
    def close(s): pass
    def flush(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): return False
class Exit(Exception): pass
def run(doc, designs):
    files = {}
    def op(path, mode='r', *a, **k):
        path = os.fspath(path); path = path[len(ROOT) + 1:] if path.startswith(ROOT + '/') else path
        if 'w' in mode: return Out(files, path)
        if 'a' in mode: o = Out({}, path); o.files = files; files.setdefault(path, ''); return o
        return io.StringIO(files[path] if path in files else '')
    class M(types.ModuleType):
        def __init__(s, name, real, **k): super().__init__(name); s.__dict__['_real'] = real; s.__dict__.update(k)
        def __getattr__(s, n): return getattr(s.__dict__['_real'], n)
    import yaml_stub
    pth = M('os.path', os.path, isdir=lambda p: True, exists=lambda p: True, isfile=lambda p: True); fos = M('os', os, getcwd=lambda: ROOT, path=pth, system=lambda c: 0, makedirs=lambda *a, **k: None, mkdir=lambda *a, **k: None, remove=lambda *a: None, chdir=lambda *a: None)
    def ce(x): return x.__ceil__() if isinstance(x, (S, P.Log)) else math.ceil(x)
    def fl(x): return x.__floor__() if isinstance(x, (S, P.Log)) else math.floor(x)
    fm = M('math', math, ceil=ce, floor=fl, log=P.sx_log, log2=lambda x: P.sx_log(x, 2)); fy = M('yaml', yaml_stub, safe_load=lambda f: doc, load=lambda f, *a, **k: doc)
    def bye(*a): raise Exit()
    fs = M('sys', sys, argv=['config.py'] + designs, exit=bye); fsh = M('shutil', shutil, **{k: (lambda *a, **k: None) for k in ('rmtree', 'copy', 'copyfile', 'copytree', 'move')}); fsp = M('subprocess', subprocess, **{k: (lambda *a, **k: types.SimpleNamespace(returncode=0, stdout='', stderr='')) for k in ('run', 'call', 'check_call', 'check_output', 'Popen')})
    mods = {'os': fos, 'math': fm, 'yaml': fy, 'sys': fs, 'shutil': fsh, 'subprocess': fsp}
    def imp(name, *a, **k): return mods[name] if name in mods else __import__(name, *a, **k)
    import builtins; b = dict(vars(builtins)); b.update(open=op, int=P.sx_int, float=P.sx_float, print=lambda *a, **k: None, exit=bye, quit=bye, __import__=imp)
    try: exec(code, {'__name__': '__main__', '__builtins__': b, '__file__': SRC})
    except Exit: return 'exit', files, ''
    except (P.Cut, P.Unsupported): raise
    except Exception as e: return 'crash', files, ''.join(traceback.format_exception(e))[-600:]
    return 'ok', files, ''
def concrete(sc, vals, tag):
    """the real script, a real YAML file, the same specification: what the counterexample does outside the executor"""
    d = f'{WORK}/{tag}'; shutil.rmtree(d, ignore_errors=True); des = sorted({DES[c] for c in sc['configs']})
    for x in ('sim/noc', 'bin'): os.makedirs(f'{d}/{x}')
    for x in des: os.makedirs(f'{d}/example-designs/{x}')
    doc = document(sc, lambda n, lo, hi, real=False: vals.get(n, lo), lambda n, o: vals.get(n, o[0]))
    def y(v): return '{' + ', '.join(f'{json.dumps(k)}: {y(w)}' for k, w in v.items()) + '}' if isinstance(v, dict) else '[' + ', '.join(map(y, v)) + ']' if isinstance(v, list) else json.dumps(v)
    for x in des: open(f'{d}/example-designs/{x}/config.yml', 'w').write(''.join(f'{json.dumps(k)}: {y(v)}\n' for k, v in doc.items()))
    open(f'{d}/CMakeLists.txt', 'w').close(); open(f'{d}/bin/cmake', 'w').write('#!/bin/sh\nexit 0\n'); os.chmod(f'{d}/bin/cmake', 0o755)
    r = subprocess.run(['python3', SRC] + des, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, env={**os.environ, 'PATH': d + '/bin:' + os.environ['PATH'], 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': ''})
    files = {}
    for f in ('sim/radsim_knobs', 'sim/radsim_defines.hpp', 'sim/main.cpp'):
        if os.path.exists(f'{d}/{f}'): files[f] = open(f'{d}/{f}').read()
    for f in os.listdir(d + '/sim/noc'): files['sim/noc/' + f] = open(f'{d}/sim/noc/{f}').read()
    out = 'ok' if r.returncode == 0 else 'crash' if 'Traceback' in r.stdout else 'exit'; bad = []
    def num(t):
        try: return int(t)
        except ValueError:
            try: return float(t)
            except ValueError: return None
    def ck(c, l):
        if not c: bad.append(l)
    spec(sc, doc, out, files, num, ck, d); shutil.rmtree(d, ignore_errors=True); return bad, out, r.stdout[-400:]
BASE = dict(nocs=1, topo=['mesh'], type=['2d'], configs=['a'], rads=['a'], frac=frac, m=thousandths)
SC = {'mesh': dict(), 'mesh3d': dict(type=['3d']), 'torus': dict(topo=['torus']), 'bw': dict(bw=True, nptmax=1, permax=2, dimmax=3), 'vcs': dict(badvcs=True, nptmax=7), 'late': dict(late=True, nptmax=2), 'order': dict(configs=['a', 'b'], rads=['a', 'b'], nptmax=2), 'swap': dict(configs=['a', 'b'], rads=['b', 'a'], nptmax=2, late=True), 'shared': dict(configs=['a'], rads=['a', 'a'], nptmax=2), 'subset': dict(configs=['a', 'b'], rads=['b'], nptmax=1), 'three': dict(configs=['a', 'b'], rads=['b', 'a', 'b'], nptmax=1), 'twonocs': dict(nocs=2, nptmax=1, permax=4, dimmax=6), 'mixed': dict(nocs=2, nptmax=1, permax=4, dimmax=6, topos=[['mesh'], ['torus']], type=['3d']), 'nodes0': dict(nocs=2, nodes0=True, nptmax=1, permax=3, dimmax=5), 'omit': dict(configs=['a', 'b'], rads=['a', 'b'], omit='b', nptmax=1, permax=2, dimmax=4), 'omit0': dict(configs=['a', 'b'], rads=['a', 'b'], omit='a', nptmax=1, permax=2, dimmax=4), 'typo': dict(nptmax=1, permax=1, dimmax=2, typo=['noc/vc', 'noc_adapters/fifo_depth', 'interfaces/axi_width', 'config a/dram/queues', 'config a/design/clocks', 'cluster/latency']), 'anynet': dict(topo=['anynet'], anynet=True, nptmax=2)}
if TIER == 'thorough': SC.update({'twotypes': dict(nocs=2, nptmax=3, topo=['mesh', 'torus'], type=['2d', '3d'], configs=['a', 'b'], rads=['b', 'a', 'b']), 'swap5': dict(configs=['a', 'b'], rads=['b', 'a'], topo=['mesh', 'torus'], type=['2d', '3d']), 'bw2': dict(bw=True, configs=['a', 'b'], rads=['b', 'b'], late=True)})
def scenario(name, limit=400.0):
    sc = {**BASE, **SC[name]}; e = P.Engine(); P.setup(e); viol = {}; reach = {}; notes = []; t0 = time.time(); complete = True; sample = None; validated = 0; samples = []
    while True:
        e.begin()
        try:
            picks = {}
            def num(n, lo, hi, real=False):
                v = z3.Int(n); e.vars[n] = (v, real); e.add(z3.And(v >= lo, v <= hi) if not real else z3.And(v >= lo * 4, v <= hi * 4)); return S(z3.ToReal(v) / 4) if real else S(v) # periods in quarters of a nanosecond
            def pick(n, o): v = z3.Int(n); k = e.choose([(i, v == i) for i in range(len(o))]); picks[n] = o[k]; return o[k]
            doc = document(sc, num, pick); des = sorted({DES[c] for c in sc['configs']}); import copy
            out, files, tb = run(copy.deepcopy(doc), des)
            def model(c):
                if e.ask(c): m = e.last.model(); return {**{n: (m.eval(v, True).as_long() / (4 if r else 1) if r else m.eval(v, True).as_long()) for n, (v, r) in e.vars.items()}, **picks}
            cks = []
            def ck(c, l):
                e.stats['checks'] += 1; c = z3.BoolVal(c) if isinstance(c, bool) else z3.simplify(c)
                if not z3.is_true(c): cks.append((c, l))
            kind = spec(sc, doc, out, files, lambda t: P.value(t) if t else None, ck, ROOT); reach[f'{name}:{kind}'] = reach.get(f'{name}:{kind}', 0) + 1
            if cks and model(z3.Not(z3.And([c for c, l in cks]))) is not None:
                for c, l in cks:
                    m = None if l in viol else model(z3.Not(c))
                    if m is not None: viol[l] = (m, out, tb)
            m = model(z3.BoolVal(True)) if len(samples) < 2 or TIER == 'thorough' else None
            if len(samples) < 2: samples.append(m)
            if m is not None and validated < (40 if TIER == 'thorough' else 2) and not viol: bad, o2, _ = concrete(sc, m, 'v'); validated += o2 == out and not bad; (o2 != out or bad) and notes.append(f'{name}: sampled path disagrees: {o2} {out} {bad[:2]}')
        except P.Cut: pass
        except P.Unsupported as x: complete = False; notes.append(f'{name}: {x}')
        if not e.next(): break
        if time.time() - t0 > limit: complete = False; notes.append(f'{name}: time'); break
    vs = []
    for l, (m, out, tb) in viol.items():
        bad, o2, txt = concrete(sc, m, 'c'); 
        if bad: vs.append(dict(harness=name, kind='check', msg=l, inputs=[[k, 0, v] for k, v in m.items()], stack=[tb[-300:]] if tb else [], native={'rc': o2, 'out': txt, 'failed': sorted(set(bad))}))
        else: notes.append(f'{name}: {l}: not reproduced by the real script with {m}')
    return dict(name=name, bounds={k: v for k, v in sc.items() if k not in ('frac', 'm')}, viol=vs, reach=reach, notes=notes, complete=complete, samples=samples, validated=validated + len(vs), **e.stats)
if __name__ == '__main__':
    from multiprocessing import get_context
    os.makedirs(WORK, exist_ok=True); global_work = WORK
    def one(n):
        global WORK
        WORK = f'{global_work}/{n}'; os.makedirs(WORK, exist_ok=True)
        try: return scenario(n)
        except Exception as x: return dict(name=n, bounds={}, viol=[], reach={}, notes=[f'{n}: {traceback.format_exc()[-800:]}'], complete=False, samples=[], validated=0, **P.Engine().stats)
    with get_context('fork').Pool(8) as p: res = p.map(one, list(SC), chunksize=1)
    print(json.dumps(res))
