from vlib import *
import glob
PROP = 'P12'
SRC = [BS + '/' + f for f in ('module.cpp', 'config_utils.cpp', 'booksim_config.cpp', 'y.tab.c', 'lex.yy.c', 'misc_utils.cpp', 'flit.cpp', 'credit.cpp', 'flitchannel.cpp', 'outputset.cpp', 'buffer.cpp', 'buffer_state.cpp', 'vc.cpp', 'power/buffer_monitor.cpp', 'power/switch_monitor.cpp')] + sorted(glob.glob(BS + '/arbiters/*.cpp') + glob.glob(BS + '/allocators/*.cpp') + glob.glob(BS + '/routers/*.cpp'))
def R(name, opts='', n=2, vcs=2, buf=2, packets=2, rf=0, look=0, shared=0, tailcred=0, lens=(1, 2, 3), gap=1, stall=4, lat=1, chlat=1, pri=0, vstall=0, mix=1, T=45, q=1, ins=2, outs=2, reach=(), **kw):
    d = dict(RO_IN=ins, RO_OUT=outs, RO_VCS=vcs, RO_BUF=buf, RO_PACKETS=packets, RO_RF=rf, RO_LOOK=look, RO_SHARED=shared, RO_TAILCRED=tailcred, RO_NLEN=len(lens), RO_LENS=','.join(map(str, lens)), RO_NSTALL=2, RO_OUT0=outs - 1, RO_GAP=gap, RO_STALL=stall, RO_CHLAT=chlat, RO_PRI=pri, RO_VSTALL=vstall, RO_MIX=mix, RO_TIME=T, RO_LATENCY=lat, RO_OPTS=opts)
    return H(name, 'router.cpp', SRC, BSINC + [SIM], gen=gen_for('mlp'), quick=[{**d, **({'RO_NLEN': 2, 'RO_LENS': f'{lens[0]},{lens[-1]}', 'RO_NSTALL': 1, 'RO_STALL': 2 * stall} if packets == 2 else {}), 'RO_OUT0': 0}] if q else [], thorough=[d], reach=['end', *reach], time=60)
LK = 'routing_delay=0'
HARNESSES = [R('base', 'x=0'), R('look', LK, look=1), R('islip', 'vc_allocator=islip;sw_allocator=islip;alloc_iters=2', rf=1), R('select', q=0, opts='vc_allocator=select;sw_allocator=select', rf=2), R('wave', 'vc_allocator=wavefront;sw_allocator=wavefront', rf=2),
  R('spec', 'speculative=1'), R('speclook', q=0, opts='speculative=1;' + LK, look=1), R('specsep', 'speculative=1;spec_sw_allocator=islip;sw_allocator=islip;spec_mask_by_reqs=1'), R('specnoelig', q=0, opts='speculative=1;spec_check_elig=0;spec_check_cred=0;spec_sw_allocator=select', rf=2), R('piggy', 'speculative=1;vc_allocator=piggyback'),
  R('delays', 'routing_delay=2;vc_alloc_delay=2;sw_alloc_delay=2;st_prepare_delay=1;st_final_delay=1;credit_delay=2', T=70), R('specdelays', q=0, opts='speculative=1;routing_delay=2;st_prepare_delay=1;credit_delay=1', T=70), R('hold', 'hold_switch_for_packet=1'), R('holdspec', 'hold_switch_for_packet=1;speculative=1;' + LK, look=1),
  R('tailcred', 'wait_for_tail_credit=1', tailcred=1), R('busyfull', 'vc_busy_when_full=1;vc_prioritize_empty=1;vc_shuffle_requests=1', rf=2), R('speed', 'input_speedup=2;output_speedup=2;internal_speedup=2.0;output_buffer_size=4', lat=0), R('outbuf', q=0, opts='output_buffer_size=2;internal_speedup=1.5', lat=0), R('inspeed', 'input_speedup=2'),
  R('shared', 'buffer_policy=shared;private_buf_size=1', shared=1), R('limited', 'buffer_policy=limited;private_buf_size=1;max_held_slots=3', shared=1), R('dynamic', 'buffer_policy=dynamic;private_buf_size=1', shared=1), R('shifting', q=0, opts='buffer_policy=shifting;private_buf_size=1', shared=1), R('feedback', 'buffer_policy=feedback;private_buf_size=1', shared=1), R('simplefb', 'buffer_policy=simplefeedback;private_buf_size=1', shared=1), R('sharedtail', 'buffer_policy=shared;private_bufs=1;wait_for_tail_credit=1', shared=1, tailcred=1),
  R('age', 'priority=local_age;vc_priority_donation=1', pri=0), R('prio', 'priority=class', pri=1), R('qlen', q=0, opts='priority=queue_length'), R('hop', q=0, opts='priority=hop_count'),
  R('one', 'x=0', packets=3, vcs=1, lens=(1, 2), gap=0), R('buf1', 'x=0', buf=1), R('noq', 'noq=1;' + LK, look=1),
  *[R('block_' + n, o, rf=1, lens=(1, 4), stall=15, reach=['passed'], vstall=1, T=50, q=n not in ('look', 'limited', 'shifting'), **kw) for n, o, kw in (('base', 'x=0', {}), ('look', LK, dict(look=1)), ('spec', 'speculative=1', {}), ('hold', 'hold_switch_for_packet=1', {}), ('busy', 'vc_busy_when_full=1', {}), ('shared', 'buffer_policy=shared;private_buf_size=1', dict(shared=1)), ('limited', 'buffer_policy=limited;private_buf_size=1;max_held_slots=3', dict(shared=1)), ('dynamic', 'buffer_policy=dynamic;private_buf_size=1', dict(shared=1)), ('shifting', 'buffer_policy=shifting;private_buf_size=1', dict(shared=1)), ('feedback', 'buffer_policy=feedback;private_buf_size=1', dict(shared=1)))]]
