#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property against /repo's working tree"""
import sys, os, importlib.util
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V); sys.dont_write_bytecode = True
def load(p):
    sp = importlib.util.spec_from_file_location('check_' + p, f'{V}/checks/{p}.py'); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
if __name__ == '__main__':
    import vlib
    if not os.path.exists(vlib.SYMX): vlib.sh(['bash', V + '/engine/build.sh'])
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.exit(vlib.run_check(load(sys.argv[1]), tier))
