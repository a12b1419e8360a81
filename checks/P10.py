from vlib import *
PROP = 'P10'
EXPLAIN = "One packet is followed through the real network object by the real routing function with every choice symbolic; Z3 decides each branch and assertion, and then whether a rank exists that grows along every recorded wait between channels (no circle)."
import copy, glob, os, re, subprocess, time
SRC = [f for f in sorted(glob.glob(BS + '/*.cpp') + glob.glob(BS + '/[anrp]*/*.cpp')) if os.path.basename(f) not in ('random_utils.cpp', 'rng_wrapper.cpp', 'rng_double_wrapper.cpp', 'router.cpp')] + [BS + '/y.tab.c', BS + '/lex.yy.c']
SRC = [(f, []) for f in SRC] + [(BS + '/routers/router.cpp', ['-DNewRouter=NewRouter_real'])]
def circle(edges, timeout=60):
    """asks the solver for a rank that grows along every pair; the core of a refusal is a circle"""
    vs = sorted({v for e in edges for v in e})
    t = '(set-option :produce-unsat-cores true)(set-option :smt.core.minimize true)\n' + ''.join(f'(declare-const r{v} Int)\n' for v in vs) + ''.join(f'(assert (! (< r{a} r{b}) :named e{a}_{b}))\n' for a, b in edges) + '(check-sat)(get-unsat-core)\n'
    r = subprocess.run(['z3', '-in', f'-T:{timeout}'], input=t, capture_output=True, text=True).stdout
    if r.startswith('sat'): return 'none', []
    if not r.startswith('unsat'): return 'unknown', []
    return 'circle', [tuple(int(x) for x in m[1:].split('_')) for m in re.findall(r'e\d+_\d+', r)]
def post(h, ctx, var, st, pool, jobs):
    if not var.get('RT_DL') or 'stats' not in st: return
    t0 = time.time(); ed = st['stats'].pop('edges', []); res, cyc = circle(ed)
    st['stats']['queries'] += 1; st['stats']['unsat' if res == 'circle' else 'sat' if res == 'none' else 'unknown'] += 1; st['stats']['solver_s'] += time.time() - t0; st['stats']['checks'] += 1; st['stats']['checks_solver'] += 1; st['stats']['reach'][f'{h.name}: pairs'] = len(ed)
    if res == 'unknown': ctx.note(f'{h.name}: rank query undecided'); st['status'] = 'partial'
    if res == 'circle' and len(cyc) < 200: # replay: the real routing function takes these waits
        import vlib.core as core
        v2 = {**var, 'RT_CYCLE': ','.join('{%d,%d}' % e for e in cyc)}; h2 = copy.copy(h); h2.post = None; h2.max_viol = len(cyc); h2.name = h.name + '_circle'
        core.run_variant(h2, ctx, v2, pool, jobs)
def anynet(ctx, cwd): # two routers with two nodes each, two with one, links of different lengths
    open(cwd + '/any.net', 'w').write('router 0 node 0 node 1 router 1 router 2 3\nrouter 1 node 2 router 3\nrouter 2 node 3 node 4 router 3 2\nrouter 3 node 5\n')
def R(topo, rf, k, n, c=1, vcs=2, nodes=None, min=1, maxhops=None, types=1, srcs=None, x=1, y=1, xr=1, yr=1, t=None, q=True, rbits=6, dl=1, esc=0, anyfile=False, qs=None, qd=None):
    nodes = nodes or k ** n * c
    d = {'RT_TOPO': topo, 'RT_RF': rf, 'RT_KK': k, 'RT_NN': n, 'RT_CC': c, 'RT_VCS': vcs, 'RT_NODES': nodes, 'RT_MIN': min, 'RT_MAXHOPS': maxhops if maxhops is not None else n * (k - 1), 'RT_TYPES': types, 'RT_SRCS': srcs or nodes, 'RT_XX': x, 'RT_YY': y, 'RT_XR': xr, 'RT_YR': yr, 'RT_RBITS': rbits, 'RT_DL': dl, 'RT_ESC': esc, 'RT_DSTS': nodes}
    if anyfile: d['ANYFILE'] = '"any.net"'
    return H(f'{topo}_{rf}_{k}_{n}' + (f'_{types}' if types > 1 else ''), 'route.cpp', SRC, SIMINC, gen=gen_for('mlp'), systemc=True, quick=[{**d, **({'RT_SRCS': qs} if qs else {}), **({'RT_DSTS': qd} if qd else {})}] if q else [], thorough=[{**d, **(t or {})}], reach=['end', 'arrived'], time=120, bounds=f'{topo} k={k} n={n} c={c} ({nodes} nodes), {vcs} virtual channels, {types} packet type(s), routes of at most {d["RT_MAXHOPS"]} hops; {rbits}-bit random numbers, router loads 0..9', assumes=['one packet is followed; other traffic enters as arbitrary router loads and arbitrary choices among what is offered', 'enough virtual channels per packet type for the routing function'], post=post, cwd_setup=anynet if anyfile else None)
M = dict(min=2)
HARNESSES = [
 R('mesh', 'dor', 4, 2, **M), R('mesh', 'dor', 3, 3, srcs=27, qs=9, **M), R('mesh', 'dim_order', 3, 2, vcs=5, types=5, **M), R('mesh', 'dim_order_ni', 3, 2, vcs=9, **M), R('mesh', 'dim_order_pni', 3, 2, vcs=6, **M),
 R('mesh', 'xy_yx', 4, 2, vcs=4, qs=8, **M), R('mesh', 'adaptive_xy_yx', 3, 2, vcs=4, **M), R('mesh', 'romm', 3, 2, vcs=4, **M), R('mesh', 'romm_ni', 3, 2, vcs=9, qs=3, **M), R('mesh', 'min_adapt', 3, 2, vcs=3, dl=2, esc=1, **M), R('mesh', 'planar_adapt', 3, 2, vcs=6, min=0, maxhops=8), R('mesh', 'valiant', 3, 2, vcs=4, min=0, maxhops=8), R('mesh', 'chaos', 3, 2, dl=0, **M),
 R('torus', 'dim_order', 4, 2, maxhops=4), R('torus', 'dim_order_ni', 3, 2, vcs=9, maxhops=2), R('torus', 'dim_order_bal', 4, 2, maxhops=4, qs=8), R('torus', 'min_adapt', 4, 2, vcs=4, maxhops=4, dl=2, esc=2, qs=8), R('torus', 'valiant', 5, 1, vcs=4, min=0, maxhops=4), R('torus', 'valiant', 3, 2, vcs=4, min=0, maxhops=4), R('torus', 'valiant_ni', 5, 1, vcs=20, min=0, maxhops=4), R('torus', 'valiant_ni', 3, 2, vcs=36, min=0, maxhops=4, qs=3), R('torus', 'chaos', 3, 2, dl=0, maxhops=2),
 R('fly', 'dest_tag', 2, 3, maxhops=2, vcs=2), R('qtree', 'nca', 4, 3, nodes=64, srcs=16, qs=4, maxhops=4), R('tree4', 'nca', 4, 3, nodes=64, srcs=4, qs=1, qd=32, maxhops=4), R('tree4', 'anca', 4, 3, nodes=64, srcs=8, qs=2, maxhops=4), R('fattree', 'nca', 3, 2, maxhops=2), R('fattree', 'anca', 3, 2, maxhops=2, qs=3),
] + [R('cmesh', f, 2, 2, c=4, nodes=16, x=2, y=2, xr=2, yr=2, maxhops=4, vcs=4, min=0, qs=8) for f in ('dor', 'dor_no_express', 'xy_yx', 'xy_yx_no_express')] + [
 R('cmesh', f, 4, 2, c=4, nodes=64, x=4, y=4, xr=2, yr=2, maxhops=8, vcs=4, min=0, srcs=16, qs=4, qd=32 if 'xy' in f else None) for f in ('dor', 'dor_no_express', 'xy_yx', 'xy_yx_no_express')] + [
 R('flatfly', f, 3, 2, c=1, nodes=9, x=3, y=3, maxhops=h, vcs=4, min=m, qs=s) for f, m, h, s in (('ran_min', 1, 2, 9), ('xyyx', 1, 2, 9), ('adaptive_xyyx', 1, 2, 9), ('valiant', 0, 4, 3), ('ugal', 0, 4, 3), ('ugal_xyyx', 0, 4, 3))] + [
 R('flatfly', f, 2, 2, c=4, nodes=16, x=2, y=2, xr=2, yr=2, maxhops=h, vcs=4, min=m, qs=2) for f, m, h in (('ran_min', 1, 2), ('valiant', 0, 4), ('ugal', 0, 4))] + [
 R('flatfly', 'ugal_pni', 4, 1, c=4, nodes=16, x=2, y=2, xr=2, yr=2, maxhops=2, vcs=8, min=0, qs=4)] + [
 R('dragonflynew', f, 2, 1, nodes=72, srcs=2, vcs=3, maxhops=h, min=m, qs=s, qd=d) for f, m, h, s, d in (('min', 1, 3, 2, 36), ('ugal', 0, 6, 1, 6))] + [
 R('anynet', 'min', 1, 1, nodes=6, vcs=2, maxhops=4, anyfile=True, dl=0)]
def typed(h): # the same functions with five packet types, each with its own virtual channels
    d = h.vt[0]; t, f, k, n, v, N = d['RT_TOPO'], d['RT_RF'], d['RT_KK'], d['RT_NN'], d['RT_VCS'], d['RT_NODES']
    return R(t, f, k, n, c=d['RT_CC'], vcs=5 * v, nodes=N, min=d['RT_MIN'], maxhops=d['RT_MAXHOPS'], types=5, x=d['RT_XX'], y=d['RT_YY'], xr=d['RT_XR'], yr=d['RT_YR'], dl=2 if d['RT_DL'] == 2 else 0, esc=d['RT_ESC'], srcs=2, qs=1, qd=2, anyfile='ANYFILE' in d)
_s = set(); HARNESSES += [typed(h) for h in HARNESSES if h.vt[0]['RT_TYPES'] == 1 and h.vt[0]['RT_RF'] != 'chaos' and h.vt[0]['RT_TOPO'] != 'dragonflynew' and not ((h.vt[0]['RT_TOPO'], h.vt[0]['RT_RF']) in _s or _s.add((h.vt[0]['RT_TOPO'], h.vt[0]['RT_RF'])))]
