from vlib import *
PROP = 'P26'
YML = '''config rad1:
  design:
    name: 'ctx'
    noc_placement: ['ctx.place']
    clk_periods: [4.0, 6.0]
noc:
  type: ['2d', '2d']
  num_nocs: {nn}
  clk_period: [1.0, 1.0]
  payload_width: [{pw}, {pw}]
  topology: ['mesh', 'mesh']
  dim_x: [{k0}, {k1}]
  dim_y: [{k0}, {k1}]
  num_nodes: [0, 0]
  routing_func: ['dim_order', 'dim_order']
  vcs: [5, 5]
  vc_buffer_size: [8, 8]
  output_buffer_size: [8, 8]
  num_packet_types: [5, 5]
  router_uarch: ['iq', 'iq']
  vc_allocator: ['islip', 'islip']
  sw_allocator: ['islip', 'islip']
  credit_delay: [1, 1]
  routing_delay: [1, 1]
  vc_alloc_delay: [1, 1]
  sw_alloc_delay: [1, 1]
noc_adapters:
  clk_period: [1.0, 2.0]
  fifo_size: [8, 8]
  obuff_size: [2, 2]
  in_arbiter: ['fixed_rr', 'fixed_rr']
  out_arbiter: ['priority_rr', 'priority_rr']
  vc_mapping: ['direct', 'direct']
interfaces:
  max_axis_tdata_width: 64
  axis_tuser_width: 11
  max_axi_data_width: 128
  axi_user_width: 64
  axi_id_width: 8
cluster:
  sim_driver_period: 4.0
  telemetry_log_verbosity: 2
  telemetry_traces: []
  num_rads: 1
  cluster_configs: ['rad1']
'''
def C(n, q, t=None, nn=2, k0=2, k1=2, pw=200, **kw):
    d = dict(CX_NOCS=nn, CX_MCLK0=4, CX_MCLK1=6, CX_DW=64, CX_ADW=128, CX_TYPES=1, CX_SPLIT=0, CX_CLKS=0, CX_ROT=0, CX_CONNECT=0, CX_SENDS=1, CX_TIME=60, CX_OFFW=61, CX_LOC_NOC='{0,0,0}', CX_LOC_NODE='{0,1,3}')
    return H(n, 'context.cpp', noc_srcs(), SIMINC, gen=gen_sys('ctx', YML.format(nn=nn, k0=k0, k1=k1, pw=pw), {'ctx.place': '', 'ctx.clks': ''}), systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], **{'reach': ['end'], 'time': 200, **kw})
L2 = dict(CX_LOC_NOC='{0,0,1,1}', CX_LOC_NODE='{0,3,0,2}')
AX = dict(CX_M='{2,1}', CX_S='{1,2}', CX_P='{0,0}', CX_Q='{0,0}')
MX = dict(CX_M='{1,1}', CX_S='{1,1}', CX_P='{1,0}', CX_Q='{0,1}')
MM = dict(CX_M='{0,0,0,0}', CX_S='{0,0,0,0}', CX_P='{1,1,0,0}', CX_Q='{0,0,1,1}')
L4 = dict(CX_LOC_NOC='{0,0,0,0}', CX_LOC_NODE='{0,1,2,3}')
HARNESSES = [
 C('place', [{**AX, 'CX_SPLIT': 1, 'CX_ROT': 1}, {**MX, **L2, 'CX_SPLIT': 2, 'CX_ROT': 1}], [{**AX, **L2, 'CX_SPLIT': 3}, {**AX, **L4, 'CX_SPLIT': 1, 'CX_ROT': 1}, {**MX, **L2, 'CX_SPLIT': 3, 'CX_ROT': 1}]),
 C('clocks', [{**AX, 'CX_CLKS': 1}, {**MX, **L4, 'CX_CLKS': 1}], [{**AX, **L4, 'CX_CLKS': 1, 'CX_ROT': 1}, {**MX, **L4, 'CX_CLKS': 1, 'CX_SPLIT': 1}]),
 C('axis', [{**AX, 'CX_CONNECT': 1}, {**AX, 'CX_CONNECT': 1, 'CX_SPLIT': 1, 'CX_LOC_NOC': '{0,0}', 'CX_LOC_NODE': '{0,3}'}, {**AX, 'CX_M': '{1,1}', 'CX_S': '{1,1}', 'CX_CONNECT': 1, 'CX_CLKS': 1, 'CX_LOC_NOC': '{0,0}', 'CX_LOC_NODE': '{2,1}', 'CX_TIME': 90}], [{**AX, 'CX_CONNECT': 1, 'CX_SPLIT': 1}, {**AX, **L4, 'CX_CONNECT': 1}, {**AX, 'CX_M': '{1,1}', 'CX_S': '{1,1}', 'CX_CONNECT': 1, 'CX_CLKS': 1, 'CX_TIME': 90, 'CX_SENDS': 2}], reach=['end', 'beat']),
 C('aximm', [{**MM, **L4, 'CX_CONNECT': 1, 'CX_NOCS': 1}], nn=1, reach=['end', 'req']),
 C('twoaxis', [{**AX, **L2, 'CX_CONNECT': 1}], [{**AX, **L2, 'CX_CONNECT': 1, 'CX_SPLIT': 1}], reach=['end', 'beat']),
 C('twoaximm', [{**MM, 'CX_CONNECT': 1, 'CX_LOC_NOC': '{0,1,1,1}', 'CX_LOC_NODE': '{0,0,2,3}', 'CX_OFFW': 58}], [{**MM, 'CX_CONNECT': 1, 'CX_LOC_NOC': '{0,0,1,1,1}', 'CX_LOC_NODE': '{0,1,0,2,3}', 'CX_OFFW': 60}], reach=['end', 'req']),
 C('sizes', [{**AX, **L4, 'CX_M': '{1,0}', 'CX_S': '{0,1}', 'CX_CONNECT': 1}], k1=3, reach=[]),
]
