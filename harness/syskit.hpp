// a made-up design on the real design context, adapters and BookSim NoC
#pragma once
#define AXISKIT_NO_CONTEXT
#include "axiskit.hpp"
#include <radsim_module.hpp>
#include <radsim_noc.hpp>
#ifndef SYS_DW
#define SYS_DW(j, dw) (dw) // width of the j-th port
#endif
struct SysMod : RADSimModule {
  std::vector<axis_master_port *> m; std::vector<axis_slave_port *> s; int dw, type;
  SysMod(const sc_module_name &n, RADSimDesignContext *c, int nm, int ns, int dw = AXIS_MAX_DATAW, int type = 0) : RADSimModule(n, c), dw(dw), type(type) { for (int i = 0; i < nm; i++) m.push_back(new axis_master_port()); for (int i = 0; i < ns; i++) s.push_back(new axis_slave_port()); RegisterModuleInfo(); }
  void RegisterModuleInfo() override {
    _num_noc_axis_slave_ports = _num_noc_axis_master_ports = _num_noc_aximm_slave_ports = _num_noc_aximm_master_ports = 0;
    for (unsigned i = 0; i < m.size(); i++) { std::string p = module_name + ".m" + std::to_string(i); RegisterAxisMasterPort(p, m[i], SYS_DW(i, dw), type); }
    for (unsigned i = 0; i < s.size(); i++) { std::string p = module_name + ".s" + std::to_string(i); RegisterAxisSlavePort(p, s[i], SYS_DW(i, dw), type); }
  }
};
static inline void ax_put(axis_master_port &s, const AxBeat &b, bool valid) { s.tvalid.write(valid); s.tdata.write(b.data); s.tdest.write(b.dest); s.tuser.write(b.user); s.tstrb.write(b.strb); s.tkeep.write(b.keep); s.tid.write(b.id); s.tlast.write(b.last); }
static inline AxBeat ax_get(axis_slave_port &s) { AxBeat b; b.data = s.tdata.read(); b.dest = s.tdest.read(); b.user = s.tuser.read(); b.strb = s.tstrb.read(); b.keep = s.tkeep.read(); b.id = s.tid.read(); b.last = s.tlast.read(); return b; }
static inline RADSimDesignContext *sys_context() { radsim_config.ResizeAll(1); ParseRADSimKnobs(RADSIM_ROOT_DIR "/sim/radsim_knobs"); sim_log.SetLogSettings(0, "sim.log"); return new RADSimDesignContext(0); }
struct SysTop : sc_module { sc_in<bool> rst; SysTop(const sc_module_name &n) : sc_module(n) {} };
