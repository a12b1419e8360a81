from vlib import *
PROP = 'P28'
from importlib.util import spec_from_file_location, module_from_spec
_s = spec_from_file_location('P26', V + '/checks/P26.py'); _m = module_from_spec(_s); _s.loader.exec_module(_m)
B = dict(CL_RADS=2, CL_VALS=2, CL_LEN=2, CL_BAD=0, CL_OPS=3, CL_ASK=0)
def C(n, part, q, t=None, **kw):
    return H(n, 'cluster.cpp', noc_srcs() + [SIM + '/radsim_cluster.cpp'], SIMINC, gen=gen_sys('ctx', _m.YML.format(nn=2, k0=2, k1=2, pw=200), {'ctx.place': '', 'ctx.clks': ''}), flags=['-fno-access-control'], systemc=True, quick=[{**B, 'CL_PART': part, **v} for v in q], thorough=[{**B, 'CL_PART': part, **v} for v in (t or q)], **{'reach': ['end'], 'time': 120, **kw})
HARNESSES = [
 C('knobfile', 1, [{}, {'CL_RADS': 1, 'CL_BAD': 1, 'CL_LEN': 1}], [{'CL_VALS': 3}, {'CL_RADS': 3}, {'CL_BAD': 1}], bounds='knob files of one to three devices, every rotation and a stride of its lines', assumes=['values in knob files come from a small set per path; the store itself is checked with symbolic integers']),
 C('store', 2, [{'CL_OPS': 2}], [{'CL_OPS': 3}], reach=['end'], bounds='every sequence of writes over three keys, three kinds, two devices and the shared knobs'),
 C('missing', 2, [{'CL_OPS': 1, 'CL_ASK': 1}], reach=['end', 'missing'], bounds='every question after one write'),
 C('control', 3, [{'CL_RADS': 3, 'CL_OPS': 4}, {'CL_RADS': 1, 'CL_OPS': 4}], [{'CL_RADS': 3, 'CL_OPS': 6}, {'CL_RADS': 4, 'CL_OPS': 6}], reach=['end', 'done'], bounds='every sequence of done and failure reports of one to four devices'),
]
