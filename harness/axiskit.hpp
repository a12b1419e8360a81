// helpers shared by the harnesses over AXI-stream ports; stands in for the design context and the NoC
#pragma once
#include "simkit.hpp"
#include <design_context.hpp>
#ifndef AXISKIT_NO_CONTEXT
RADSimDesignContext::RADSimDesignContext(unsigned int id) { rad_id = id; rad_done = false; }
RADSimDesignContext::~RADSimDesignContext() {}
void RADSimDesignContext::RegisterModule(std::string, RADSimModule *) {}
void RADSimDesignContext::AssignPortalSlaveName(std::string n) { portal_slave_name = n; }
#endif
static inline void ax_bind(axis_master_port &m, axis_signal &s) { m.tvalid(s.tvalid); m.tready(s.tready); m.tdata(s.tdata); m.tstrb(s.tstrb); m.tkeep(s.tkeep); m.tlast(s.tlast); m.tid(s.tid); m.tdest(s.tdest); m.tuser(s.tuser); }
static inline void ax_bind(axis_slave_port &m, axis_signal &s) { m.tvalid(s.tvalid); m.tready(s.tready); m.tdata(s.tdata); m.tstrb(s.tstrb); m.tkeep(s.tkeep); m.tlast(s.tlast); m.tid(s.tid); m.tdest(s.tdest); m.tuser(s.tuser); }
struct AxBeat { sc_bv<AXIS_MAX_DATAW> data; sc_bv<AXIS_DESTW> dest; sc_bv<AXIS_USERW> user; sc_bv<AXIS_STRBW> strb; sc_bv<AXIS_KEEPW> keep; sc_bv<AXIS_IDW> id; bool last; int at = 0; };
static inline AxBeat ax_sym() { AxBeat b; b.data = sk_bv<AXIS_MAX_DATAW>("tdata"); b.dest = sk_bv<AXIS_DESTW>("tdest"); b.user = sk_bv<AXIS_USERW>("tuser"); b.strb = sk_bv<AXIS_STRBW>("tstrb"); b.keep = sk_bv<AXIS_KEEPW>("tkeep"); b.id = sk_bv<AXIS_IDW>("tid"); b.last = sx_in("tlast", 1); return b; }
static inline void ax_put(axis_signal &s, const AxBeat &b, bool valid) { s.tvalid.write(valid); s.tdata.write(b.data); s.tdest.write(b.dest); s.tuser.write(b.user); s.tstrb.write(b.strb); s.tkeep.write(b.keep); s.tid.write(b.id); s.tlast.write(b.last); }
static inline AxBeat ax_get(axis_signal &s) { AxBeat b; b.data = s.tdata.read(); b.dest = s.tdest.read(); b.user = s.tuser.read(); b.strb = s.tstrb.read(); b.keep = s.tkeep.read(); b.id = s.tid.read(); b.last = s.tlast.read(); return b; }
