from vlib import *
import json, subprocess
PROP = 'P27'
LEVEL = 'model_checking'
EXPLAIN = 'rad-sim/config.py itself is executed on YAML documents whose numbers are solver terms: every branch of the script on such a number is decided by Z3 and both sides are explored by re-execution, text built from numbers keeps the term, and every statement about the generated knobs, header, BookSim files and main.cpp is an assertion decided by Z3. A counterexample is written as a real YAML file and run through the real script before it is reported.'
ASSUMES = ['numbers of the YAML file are exact (periods are multiples of 0.25 ns, bandwidths thousandths of a beat per driver cycle); floating-point rounding inside config.py is not modelled, and a logarithm rounded up is the exact one', 'sizes of the document (number of NoCs, configurations, RADs, clocks, memories) are fixed by each scenario']
def custom(ctx):
    w = f'{ctx.work}/pysym'; r = subprocess.run(['python3-vt', V + '/pysym/config.py', RS + '/config.py', ctx.tier, w], cwd=V + '/pysym', env={**os.environ, 'PYTHONPATH': V + '/pysym', 'PYTHONDONTWRITEBYTECODE': '1'}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800 if ctx.tier == 'quick' else 7200)
    try: res = json.loads(r.stdout.strip().split('\n')[-1])
    except Exception: ctx.notes.append('symbolic executor: ' + (r.stdout + r.stderr)[-1500:]); print('P27: no verdict:', (r.stdout + r.stderr)[-300:]); return {'coverage': {'complete': False}}
    cov = {k: sum(x[k] for x in res) for k in ('paths', 'queries', 'sat', 'unsat', 'unknown', 'checks', 'validated')}
    cov.update(solver_s=round(sum(x['solver_s'] for x in res), 3), transitions=sum(x['forks'] + x['checks'] for x in res), complete=all(x['complete'] for x in res), reach={}, samples=[{'harness': x['name'], 'inputs': [[k, 0, v] for k, v in list(s.items())[:60]]} for x in res for s in x['samples'][:1]], functions=['parse_config_file', 'find_num_configs', 'generate_booksim_config_files', 'generate_radsim_params_header', 'get_fraction', 'generate_radsim_config_file', 'generate_radsim_main'],
               harnesses={x['name']: {'bounds': x['bounds'], 'complete': x['complete'], 'paths': x['paths']} for x in res})
    cov['functions'] = [f'{f} [rad-sim/config.py]' for f in cov['functions']]
    for x in res:
        cov['reach'].update(x['reach']); ctx.notes += x['notes']
        for v in x['viol']: ctx.viol.append((None, {}, {**v, 'id': f"config-{x['name']}-{v['msg']}"}))
        print(f"config {x['name']}: {'ok' if x['complete'] else 'incomplete'} paths={x['paths']} queries={x['queries']} checks={x['checks']} solver={round(x['solver_s'], 2)}s validated={x['validated']}" + (f" notes={x['notes'][:2]}" if x['notes'] else ''))
    return {'coverage': cov}
