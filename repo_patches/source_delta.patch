From 15bf528c28b22015b157bbab5d8003161935cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 01/34] fix: drop partially assembled words when an asymmetric
 FIFO is reset

---
 rad-sim/example-designs/dlrm/modules/afifo.cpp         | 1 +
 rad-sim/example-designs/dlrm_two_rad/modules/afifo.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rad-sim/example-designs/dlrm/modules/afifo.cpp b/rad-sim/example-designs/dlrm/modules/afifo.cpp
index 98c6625..06f0a00 100644
--- a/rad-sim/example-designs/dlrm/modules/afifo.cpp
+++ b/rad-sim/example-designs/dlrm/modules/afifo.cpp
@@ -28,6 +28,7 @@ template <class dtype> void afifo<dtype>::Tick() {
   // Reset logic
   while (!_mem.empty())
     _mem.pop();
+  _staging_counter = 0;
   empty.write(true);
   full.write(false);
   almost_full.write(false);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/afifo.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/afifo.cpp
index 98c6625..06f0a00 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/afifo.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/afifo.cpp
@@ -28,6 +28,7 @@ template <class dtype> void afifo<dtype>::Tick() {
   // Reset logic
   while (!_mem.empty())
     _mem.pop();
+  _staging_counter = 0;
   empty.write(true);
   full.write(false);
   almost_full.write(false);
-- 
2.43.0


From 777f093b1187dfe15b5200a11ec609b537ad649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 02/34] fix: enforce tRFCb on the bank a per-bank refresh goes
 to

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..6c31b2e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -222,7 +222,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
-- 
2.43.0


From 4175d21ce04ca2bb0a233be812073ed21dab87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 03/34] fix: let a rank in self refresh be asked to leave it
 before tCKESR has passed

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..b6cc22c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -70,6 +70,7 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::READ_PRECHARGE:
                 case CommandType::WRITE:
                 case CommandType::WRITE_PRECHARGE:
+                case CommandType::SREF_EXIT:
                     required_type = CommandType::SREF_EXIT;
                     break;
                 default:
-- 
2.43.0


From 18eb3a202320deee18fa50f869622ad8e98aa270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 04/34] fix: refresh every rank under the simultaneous
 rank-level policy

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From f6f080041c7ef3567f75531458c1800ac81e3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 05/34] fix: return every NoC credit when the adapters are not
 slower than the NoC

The ejection side of the NoC adapters records at most one popped flit per
node until the next NoC cycle.  When an adapter popped two flits between two
NoC cycles, one credit was lost and the router port eventually stalled for
good.  Hold the next flit until the credit of the previous one is returned.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 7 +++++++
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 7 +++++++
 rad-sim/sim/noc/axis_master_adapter.cpp  | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..6b00dee 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -165,6 +165,13 @@ void aximm_master_adapter::OutputDepacketization() {
   _ejection_afifo_is_depacketizing.write(false);
 
   while (true) {
+    // The credit of the last popped flit has to be returned to the NoC before
+    // another flit is popped, otherwise one of the two credits would be lost
+    if (_ejected_flits->find(_node_id) != _ejected_flits->end()) {
+      wait();
+      continue;
+    }
+
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
         _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..8028ca5 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -539,6 +539,13 @@ void aximm_slave_adapter::OutputDepacketization() {
   _ejection_afifo_is_depacketizing.write(false);
 
   while (true) {
+    // The credit of the last popped flit has to be returned to the NoC before
+    // another flit is popped, otherwise one of the two credits would be lost
+    if (_ejected_flits->find(_node_id) != _ejected_flits->end()) {
+      wait();
+      continue;
+    }
+
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
         _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..bcea22e 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -125,6 +125,13 @@ void axis_master_adapter::OutputDepacketization() {
   _ejection_afifo_is_depacketizing.write(false);
 
   while (true) {
+    // The credit of the last popped flit has to be returned to the NoC before
+    // another flit is popped, otherwise one of the two credits would be lost
+    if (_ejected_flits->find(_node_id) != _ejected_flits->end()) {
+      wait();
+      continue;
+    }
+
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     unsigned int dest_output_fifo = 0;
     if (!_ejection_afifos[highest_priority_fifo_id].empty()) {
-- 
2.43.0


From 006cf96183c366b755c986161411a97cf6315f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 06/34] fix: decode AXI-MM burst length, size and type from the
 control field

The master adapter unpacked arburst/arsize/arlen and awburst/awsize/awlen from
the bottom of the packet (last and user bits) instead of its control field.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 6b00dee..b5a2a8b 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -285,13 +285,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -322,13 +322,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From efa46490bd0b631f2ba82fe94a0b2cfe06969f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 07/34] fix: send all bits of AXI-MM addresses and write
 responses

The flit counts of AR/AW and B packets left out the response and last fields
below the address and response bits, so the topmost bits were cut off for some
NoC payload widths.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index b5a2a8b..5c1e65c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -498,7 +498,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 8028ca5..6213cba 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -293,8 +293,9 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
-                                  NOC_LINKS_PAYLOAD_WIDTH));
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) *
+                                  1.0 / NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
           AXI4_ADDR(packet_bv) = _i_payload.read();
-- 
2.43.0


From e5e5f0cab9739dcec77a2a5b091aff8b235451c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 08/34] fix: send AXI-MM write data to the node of its own
 write request

When a master issued a second write request before the data of the first, the
data of both bursts went to the node of the second one and the last burst was
never accepted.  Remember the destinations of all outstanding write requests.
---
 rad-sim/sim/noc/aximm_slave_adapter.cpp | 19 +++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp |  9 +++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 6213cba..f561829 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -154,6 +154,7 @@ void aximm_slave_adapter::InputInterface() {
   _i_unique_sim_id.write(0);
   _injection_priority_setting.write(0);
   _got_aw.write(false);
+  _aw_dests = std::queue<int>();
   wait();
 
   while (true) {
@@ -210,6 +211,7 @@ void aximm_slave_adapter::InputInterface() {
       sc_bv<AXI4_ADDRW> awaddr = aximm_interface.awaddr.read();
       int noc_dest = GetInputDestinationNode(awaddr);
       _i_noc_dest.write(noc_dest);
+      _aw_dests.push(noc_dest);
       _got_aw.write(true);
 
       // Adjust priority setting and log the initiation of an AW transaction
@@ -234,16 +236,19 @@ void aximm_slave_adapter::InputInterface() {
       _i_valid.write(aximm_interface.wvalid.read());
       _i_type.write(AXI_TYPE_W);
       _i_last.write(aximm_interface.wlast.read());
-      _i_noc_dest.write(_last_awdest.read());
-      _got_aw.write(!aximm_interface.wlast.read());
+      int noc_dest = _aw_dests.front();
+      _i_noc_dest.write(noc_dest);
+      if (aximm_interface.wlast.read()) {
+        _aw_dests.pop();
+      }
+      _got_aw.write(!_aw_dests.empty());
 
       // Adjust priority setting and log the initiation of an W transaction
       _injection_priority_setting.write(0);
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, (int)_last_awdest.read().to_uint(), AXI_TYPE_W,
-          _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_W, _interface_dataw, _network_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
@@ -273,7 +278,6 @@ void aximm_slave_adapter::InputPacketization() {
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
   _injection_afifo_full.write(false);
-  _last_awdest.write(0);
   wait();
 
   while (true) {
@@ -312,11 +316,6 @@ void aximm_slave_adapter::InputPacketization() {
             set_flit_payload(packetization_flit, packet_bv, flit_id);
             _injection_afifo.push(packetization_flit);
           }
-
-          if (_i_type.read() == AXI_TYPE_AW) {
-            sc_bv<AXI4_ADDRW> addr = _i_payload.read();
-            _last_awdest.write(GetInputDestinationNode(addr));
-          }
         } else if (_i_type.read() == AXI_TYPE_W) {
 
           num_flits = (unsigned int)(ceil(
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..3de5bcd 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -100,12 +100,13 @@ private:
 
   // Variables for computing different request interface ready signals. Master
   // adapter will accept a W transaction only if it previously received an AW
-  // transaction and did not receive wlast yet (specified by the _got_aw
-  // signal). As in AXI4 protocol, W transactions will be directed to the last
-  // stored AW address (_last_awaddr) regardless to the transaction ID.
+  // transaction and did not receive its wlast yet (specified by the _got_aw
+  // signal). As in AXI4 protocol, W transactions will be directed to the
+  // destination of the oldest AW transaction whose wlast was not received yet
+  // (_aw_dests) regardless to the transaction ID.
   bool _arready, _awready, _wready;
   sc_signal<bool> _got_aw;
-  sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _last_awdest;
+  std::queue<int> _aw_dests;
   // Priority setting for AXI Interface arbitration logic. Current
   // implementation is a prioritized round-robin with order as: AR->AW->W (e.g.
   // if AR transaction is selected, next highest priority will be AW)
-- 
2.43.0


From 61727709339903b7005e8848fe4aebdd1df56ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 09/34] fix: keep AXI-MM packets of different virtual channels
 apart

The AXI-MM adapters collected the flits of all virtual channels of one packet
type in a single FIFO, so packets arriving interleaved on two channels were
merged into corrupt ones.  Use one ejection FIFO per virtual channel.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 23 ++++++++++++-----------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 22 ++++++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  3 ++-
 4 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 5c1e65c..25fdc83 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -28,10 +28,12 @@ aximm_master_adapter::aximm_master_adapter(
   // Initialize request interface (AR, AW, W) member variables
   _ejection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
-  _ejection_afifos.resize(AXI_NUM_REQ_TYPES);
-  _ejection_afifo_push_counter.init(AXI_NUM_REQ_TYPES);
-  _ejection_afifo_pop_counter.init(AXI_NUM_REQ_TYPES);
-  for (int i = 0; i < AXI_NUM_REQ_TYPES; i++) {
+  _num_vcs =
+      radsim_config.GetIntVectorKnobPerRad("noc_vcs", _network_id, _rad_id);
+  _ejection_afifos.resize(_num_vcs);
+  _ejection_afifo_push_counter.init(_num_vcs);
+  _ejection_afifo_pop_counter.init(_num_vcs);
+  for (unsigned int i = 0; i < _num_vcs; i++) {
     _ejection_afifo_priority.push(i);
   }
   _ejected_booksim_flit = nullptr;
@@ -124,9 +126,8 @@ void aximm_master_adapter::OutputEjection() {
       int vc_id = _ejected_booksim_flit->vc;
       // std::cout << this->name() << ": Ejected Flit from VC " << vc_id << "!"
       //           << std::endl;
-      int type = InverseVCMapping(vc_id);
-      int type_id = (type == AXI_TYPE_AR) ? 0 : (type == AXI_TYPE_AW) ? 1 : 2;
-      if (_ejection_afifos[type_id].size() < _ejection_afifo_depth) {
+      InverseVCMapping(vc_id); // Verify that this is a request VC
+      if (_ejection_afifos[vc_id].size() < _ejection_afifo_depth) {
         // Create a SystemC flit and push it to its corresponding ejection FIFO
         sc_flit ejected_flit(
             _ejected_booksim_flit->head, _ejected_booksim_flit->tail,
@@ -135,13 +136,13 @@ void aximm_master_adapter::OutputEjection() {
             _ejected_booksim_flit->pid, _ejected_booksim_flit->id);
         ejected_flit._payload = static_cast<sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *>(
             _ejected_booksim_flit->data);
-        _ejection_afifos[type_id].push(ejected_flit);
+        _ejection_afifos[vc_id].push(ejected_flit);
 
         // If tail flit received, increment FIFO counter (i.e. FIFO has 1 more
         // complete packet)
         if (_ejected_booksim_flit->tail) {
-          int updated_count = _ejection_afifo_push_counter[type_id].read() + 1;
-          _ejection_afifo_push_counter[type_id].write(updated_count);
+          int updated_count = _ejection_afifo_push_counter[vc_id].read() + 1;
+          _ejection_afifo_push_counter[vc_id].write(updated_count);
           NoCTransactionTelemetry::RecordTransactionTailEjection(
               _ejected_booksim_flit->id);
           NoCTransactionTelemetry::UpdateHops(_ejected_booksim_flit->id,
@@ -187,7 +188,7 @@ void aximm_master_adapter::OutputDepacketization() {
       // ready
       unsigned int num_checked_fifos = 0;
       while (!fifo_has_complete_packet &&
-             num_checked_fifos < AXI_NUM_REQ_TYPES) {
+             num_checked_fifos < _num_vcs) {
         _ejection_afifo_priority.push(_ejection_afifo_priority.front());
         _ejection_afifo_priority.pop();
         num_checked_fifos++;
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..d00f680 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -40,6 +40,7 @@ private:
   // Request Interface variables
   Flit *_ejected_booksim_flit;
   unsigned int _ejection_afifo_depth;
+  unsigned int _num_vcs;
   std::vector<std::queue<sc_flit>> _ejection_afifos;
   sc_vector<sc_signal<int>> _ejection_afifo_push_counter;
   sc_vector<sc_signal<int>> _ejection_afifo_pop_counter;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index f561829..c41e995 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -63,10 +63,12 @@ aximm_slave_adapter::aximm_slave_adapter(
   _ejected_booksim_flit = nullptr;
   _ejection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
-  _ejection_afifos.resize(AXI_NUM_RSP_TYPES);
-  _ejection_afifo_push_counter.init(AXI_NUM_RSP_TYPES);
-  _ejection_afifo_pop_counter.init(AXI_NUM_RSP_TYPES);
-  for (int i = 0; i < AXI_NUM_RSP_TYPES; i++) {
+  _num_vcs =
+      radsim_config.GetIntVectorKnobPerRad("noc_vcs", _network_id, _rad_id);
+  _ejection_afifos.resize(_num_vcs);
+  _ejection_afifo_push_counter.init(_num_vcs);
+  _ejection_afifo_pop_counter.init(_num_vcs);
+  for (unsigned int i = 0; i < _num_vcs; i++) {
     _ejection_afifo_priority.push(i);
   }
 
@@ -497,8 +499,8 @@ void aximm_slave_adapter::OutputEjection() {
     if (_ejected_booksim_flit) {
       // Check if corresponding ejection FIFO can accept a new flit
       int vc_id = _ejected_booksim_flit->vc;
-      int type_id = (InverseVCMapping(vc_id) == AXI_TYPE_R) ? 0 : 1;
-      if (_ejection_afifos[type_id].size() < _ejection_afifo_depth) {
+      InverseVCMapping(vc_id); // Verify that this is a response VC
+      if (_ejection_afifos[vc_id].size() < _ejection_afifo_depth) {
         // Create a SystemC flit and push it to its corresponding ejection FIFO
         sc_flit ejected_flit(
             _ejected_booksim_flit->head, _ejected_booksim_flit->tail,
@@ -507,13 +509,13 @@ void aximm_slave_adapter::OutputEjection() {
             _ejected_booksim_flit->pid, _ejected_booksim_flit->id);
         ejected_flit._payload = static_cast<sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *>(
             _ejected_booksim_flit->data);
-        _ejection_afifos[type_id].push(ejected_flit);
+        _ejection_afifos[vc_id].push(ejected_flit);
 
         // If tail flit received, increment FIFO counter (i.e. FIFO has 1 more
         // complete packet), and record ejection time
         if (_ejected_booksim_flit->tail) {
-          int updated_count = _ejection_afifo_push_counter[type_id].read() + 1;
-          _ejection_afifo_push_counter[type_id].write(updated_count);
+          int updated_count = _ejection_afifo_push_counter[vc_id].read() + 1;
+          _ejection_afifo_push_counter[vc_id].write(updated_count);
           NoCTransactionTelemetry::RecordTransactionTailEjection(
               _ejected_booksim_flit->id);
           NoCTransactionTelemetry::UpdateHops(_ejected_booksim_flit->id,
@@ -561,7 +563,7 @@ void aximm_slave_adapter::OutputDepacketization() {
       // ready
       unsigned int num_checked_fifos = 0;
       while (!fifo_has_complete_packet &&
-             num_checked_fifos < AXI_NUM_RSP_TYPES) {
+             num_checked_fifos < _num_vcs) {
         _ejection_afifo_priority.push(_ejection_afifo_priority.front());
         _ejection_afifo_priority.pop();
         num_checked_fifos++;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 3de5bcd..e7f93f9 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -132,8 +132,9 @@ private:
   // Booksim flit ejection variables
   Flit *_ejected_booksim_flit;
 
-  // Asynchronous ejection FIFOs, one for each response type (R, B)
+  // Asynchronous ejection FIFOs, one for each virtual channel
   unsigned int _ejection_afifo_depth;
+  unsigned int _num_vcs;
   std::vector<std::queue<sc_flit>> _ejection_afifos;
   sc_vector<sc_signal<int>> _ejection_afifo_push_counter;
   sc_vector<sc_signal<int>> _ejection_afifo_pop_counter;
-- 
2.43.0


From e2159112443ab4ef250d485b297787d29ef82e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 10/34] fix: round the AXI-MM adapter's clock ratio up so
 transactions are not duplicated at non-integer ratios

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 25fdc83..a9f089f 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -57,7 +57,7 @@ aximm_master_adapter::aximm_master_adapter(
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
-  _freq_ratio = (int)floor(_node_period / _adapter_period);
+  _freq_ratio = (int)ceil(_node_period / _adapter_period);
   _rready = false;
   _bready = false;
   _injection_flit_ready = false;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index c41e995..e7a03f5 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -39,7 +39,7 @@ aximm_slave_adapter::aximm_slave_adapter(
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
-  _freq_ratio = (int)floor(_node_period / _adapter_period);
+  _freq_ratio = (int)ceil(_node_period / _adapter_period);
   _arready = false;
   _awready = false;
   _wready = false;
-- 
2.43.0


From cba55141bc45f512f61365fbb18f9d4bd1f68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 11/34] fix: keep the user field of write responses in step
 with the response being sent

---
 rad-sim/sim/dram/mem_controller.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..15a6f6c 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -461,6 +461,9 @@ void mem_controller::Tick() {
 
       mem_channels[ch_id].bvalid.write(_output_write_responses[ch_id].size() >
                                        0);
+      if (_output_write_responses[ch_id].size() > 0) {
+        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
+      }
       mem_channels[ch_id].rvalid.write(_output_read_responses[ch_id].size() >
                                        0);
       if (_output_read_responses[ch_id].size() > 0) {
@@ -611,10 +614,6 @@ void mem_controller::Assign() {
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
                                         read_output_queue_ok);
-
-      if (_output_write_responses[ch_id].size() > 0) {
-        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
-      }
     }
   }
 }
-- 
2.43.0


From a3ba6a455717897dea4543db4f022ead6b74da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 12/34] fix: schedule the read a full write buffer waits for
 instead of stalling the memory for good

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..c27d32c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -207,6 +207,7 @@ void Controller::ScheduleTransaction() {
     std::vector<Transaction> &queue =
         is_unified_queue_ ? unified_queue_
                           : write_draining_ > 0 ? write_buffer_ : read_queue_;
+    bool blocked_by_read = false;
     for (auto it = queue.begin(); it != queue.end(); it++) {
         auto cmd = TransToCommand(*it);
         if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
@@ -215,6 +216,7 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    blocked_by_read = true;
                     break;
                 }
                 write_draining_ -= 1;
@@ -224,6 +226,20 @@ void Controller::ScheduleTransaction() {
             break;
         }
     }
+
+    // A write waiting for a read must not keep that read from being scheduled,
+    // even if the write buffer is full
+    if (blocked_by_read) {
+        for (auto it = read_queue_.begin(); it != read_queue_.end(); it++) {
+            auto cmd = TransToCommand(*it);
+            if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
+                                             cmd.Bank())) {
+                cmd_queue_.AddCommand(cmd);
+                read_queue_.erase(it);
+                break;
+            }
+        }
+    }
 }
 
 void Controller::IssueCommand(const Command &cmd) {
-- 
2.43.0


From da68d3fa0943ab5c1319895c4700fbdf5d76acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 13/34] fix: accept write data that arrives ahead of its write
 request

---
 rad-sim/sim/dram/mem_controller.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 15a6f6c..a457b3a 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -385,7 +385,6 @@ void mem_controller::Tick() {
       bool awready_flag =
           _write_address_queue_occupancy[ch_id] < _input_queue_size;
       bool wready_flag =
-          _write_address_queue_occupancy[ch_id] > 0 &&
           _write_data_queue_occupancy[ch_id] < _input_queue_size &&
           wr_oqueue_ok;
       bool arready_flag = rd_iqueue_ok && rd_oqueue_ok;
@@ -525,7 +524,8 @@ void mem_controller::MemTick() {
                 std::make_tuple(read_addr, resp_addr, last));
           }
           // Issue write request to DRAMsim
-        } else if (_write_data_queue[ch_id].size() > 0) {
+        } else if (_write_data_queue[ch_id].size() > 0 &&
+                   _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -549,7 +549,8 @@ void mem_controller::MemTick() {
     } else {
       for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
         // Issue write request to DRAMsim
-        if (_write_data_queue[ch_id].size() > 0) {
+        if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -609,7 +610,6 @@ void mem_controller::Assign() {
       mem_channels[ch_id].awready.write(_write_address_queue_occupancy[ch_id] <
                                         _input_queue_size - 16);
       mem_channels[ch_id].wready.write(
-          _write_address_queue_occupancy[ch_id] > 0 &&
           _write_data_queue_occupancy[ch_id] < _input_queue_size - 16 &&
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
-- 
2.43.0


From ff7754ca6f3180ae3021299552aa799f59c1a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 14/34] fix: npu register file: re-evaluate the read port when
 the last read stage changes

---
 rad-sim/example-designs/npu/modules/register_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/npu/modules/register_file.cpp b/rad-sim/example-designs/npu/modules/register_file.cpp
index 523b1f9..ecd4c1b 100644
--- a/rad-sim/example-designs/npu/modules/register_file.cpp
+++ b/rad-sim/example-designs/npu/modules/register_file.cpp
@@ -33,7 +33,7 @@ register_file<dtype>::register_file(const sc_module_name& name, unsigned int id,
 
   SC_METHOD(Assign);
   sensitive << wdata_pipeline[RF_WR_LATENCY - 1] << wen_pipeline[RF_WR_LATENCY - 1] << waddr_pipeline[RF_WR_LATENCY - 1]
-            << raddr_pipeline[RF_WR_LATENCY - 1];
+            << raddr_pipeline[RF_RD_LATENCY - 1];
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 }
-- 
2.43.0


From 00fff9058e4e43fd6e02409782c39b5c0d4c2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 15/34] fix: keep valiant routing's phase and ring partition on
 tori

valiant_ni_torus looked at f->ph, which holds 2*phase + partition, where it
needed the phase, so packets never headed for their intermediate node and
could circle in the network; both functions used an uninitialized partition
when a packet continued in the same ring.
---
 rad-sim/sim/noc/booksim/routefunc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..876da66 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1422,7 +1422,7 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
+    int ring_part = f->ph & 1; // kept while continuing in the same ring
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
@@ -1510,13 +1510,13 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       phase = f->ph / 2;
     }
 
-    if ( ( f->ph == 0 ) && ( r->GetID( ) == f->intm ) ) {
-      f->ph = 1; // Go to phase 1
+    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
+      phase = 1; // Go to phase 1
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
-    dor_next_torus( r->GetID( ), (f->ph == 0) ? f->intm : f->dest, in_channel,
+    int ring_part = f->ph & 1; // kept while continuing in the same ring
+    dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
-- 
2.43.0


From 25bcd236c2a33d3fa10096963ce618e90067890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 16/34] fix: valiant routing keeps its virtual channel classes
 while passing its destination

A packet on its way to its intermediate node that passed its destination's
router was offered every virtual channel there, so it could enter the
channels of the second phase and packets could wait for each other in a
circle.
---
 rad-sim/sim/noc/booksim/routefunc.cpp | 48 ++++++++++++++-------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 876da66..cdf47cc 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1356,8 +1356,8 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
 
     out_port = dor_next_mesh( r->GetID( ), (f->ph == 0) ? f->intm : f->dest );
 
-    // at the destination router, we don't need to separate VCs by phase
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase
+    if((f->ph == 0) || (r->GetID() != f->dest)) {
 
       //each class must have at least 2 vcs assigned or else valiant valiant will deadlock
       int const available_vcs = (vcEnd - vcBegin + 1) / 2;
@@ -1428,8 +1428,8 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase, etc.
+    if((phase == 0) || (r->GetID() != f->dest)) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
@@ -1483,8 +1483,25 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
   }
   assert(((f->vc >= vcBegin) && (f->vc <= vcEnd)) || (inject && (f->vc < 0)));
 
-  // at the destination router, we don't need to separate VCs by destination
-  if(inject || (r->GetID() != f->dest)) {
+  int out_port;
+  int phase = 0;
+
+  if(!inject) {
+    if ( in_channel == 2*gN ) {
+      phase   = 0;  // Phase 0
+      f->intm = RandomInt( gNodes - 1 );
+    } else {
+      phase = f->ph / 2;
+    }
+
+    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
+      phase = 1; // Go to phase 1
+      in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
+    }
+  }
+
+  // when leaving the network, we don't need to separate VCs by destination
+  if(inject || (phase == 0) || (r->GetID() != f->dest)) {
 
     int const vcs_per_dest = (vcEnd - vcBegin + 1) / gNodes;
     assert(vcs_per_dest > 0);
@@ -1494,35 +1511,20 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
 
   }
 
-  int out_port;
-
   if(inject) {
 
     out_port = -1;
 
   } else {
 
-    int phase;
-    if ( in_channel == 2*gN ) {
-      phase   = 0;  // Phase 0
-      f->intm = RandomInt( gNodes - 1 );
-    } else {
-      phase = f->ph / 2;
-    }
-
-    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
-      phase = 1; // Go to phase 1
-      in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
-    }
-  
     int ring_part = f->ph & 1; // kept while continuing in the same ring
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when leaving the network, we don't need to separate VCs by phase, etc.
+    if((phase == 0) || (r->GetID() != f->dest)) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
-- 
2.43.0


From 3a483cd3c595a37fff677b2f606c55251d689f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 17/34] fix: min_adapt_mesh offers the packet type's own escape
 channel

The arguments were shifted: the escape range started at channel 0 and the
first channel number was used as its priority, so with virtual channels per
packet type packets were offered the channels of other types, first.
---
 rad-sim/sim/noc/booksim/routefunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index cdf47cc..5df3798 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
-- 
2.43.0


From 78aa815c661dc53cbc266b65d2daefd5f1e2dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 18/34] fix: select allocator forgets the grants of earlier
 iterations

---
 rad-sim/sim/noc/booksim/allocators/selalloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
index adf0c10..39ea0f6 100644
--- a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
@@ -62,6 +62,9 @@ void SelAlloc::Allocate( )
   vector<int> grants(_outputs, -1);
 
   for ( int iter = 0; iter < _iter; ++iter ) {
+    // grants of an earlier iteration no longer count
+    grants.assign(_outputs, -1);
+
     // Grant phase
 
     for( outer_iter = _out_occ.begin( ); 
-- 
2.43.0


From 9b212c66082cdeb8d152dfa5aba00f0bd3858983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 19/34] fix: max_size allocator resets the path of every output

---
 rad-sim/sim/noc/booksim/allocators/maxsize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
index ffa11b4..5b9ec0f 100644
--- a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
@@ -112,7 +112,7 @@ bool MaxSizeMatch::_ShortestAugmenting( )
     }
   }
 
-  _from.assign(_inputs, -1);
+  _from.assign(_outputs, -1);
 
   for ( int iter = 0; iter < _inputs; iter++ ) {
     nslen = 0;
-- 
2.43.0


From f4af881e5991a34ec81059b77ea9ce573cc266e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 20/34] fix: routers with multi-cycle stages start every
 waiting request

---
 rad-sim/sim/noc/booksim/routers/iq_router.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.cpp b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
index 2f66207..1db9c79 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.cpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
@@ -471,7 +471,7 @@ void IQRouter::_RouteEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _routing_delay - 1;
     
@@ -565,7 +565,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -714,7 +714,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _vc_alloc_delay - 1;
 
@@ -941,7 +941,7 @@ void IQRouter::_SWHoldEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime();
     
@@ -1337,7 +1337,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -1503,7 +1503,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _sw_alloc_delay - 1;
 
@@ -2145,7 +2145,7 @@ void IQRouter::_SwitchEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _crossbar_delay - 1;
 
-- 
2.43.0


From 792bb3039602897f3a4d84276377c158227799d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:59 +0000
Subject: [PATCH 21/34] fix: mlp mvm output follows its FIFO becoming empty

A last result of all zeros for the collector left no sensitive signal changing
when it was popped, so the MVM kept tvalid up and popped an empty FIFO.
---
 rad-sim/example-designs/mlp/modules/mvm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp/modules/mvm.cpp b/rad-sim/example-designs/mlp/modules/mvm.cpp
index c412915..3565ec2 100644
--- a/rad-sim/example-designs/mlp/modules/mvm.cpp
+++ b/rad-sim/example-designs/mlp/modules/mvm.cpp
@@ -182,7 +182,8 @@ mvm::mvm(const sc_module_name &name, unsigned int id_mvm, unsigned int id_layer,
             << dl_fifo_rdata_signal << dm_fifo_rdata_signal
             << dest_layer_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
             << dest_mvm_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
-            << dl_fifo_rdata_signal << dm_fifo_rdata_signal;
+            << dl_fifo_rdata_signal << dm_fifo_rdata_signal
+            << ofifo_empty_signal;
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 
-- 
2.43.0


From b2700062adcd147fbeca30aed719c06f7f951430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 22/34] fix: embedding lookup takes an accepted request off its
 queue before offering the next

---
 .../dlrm/modules/embedding_lookup.cpp         | 40 ++++++++++---------
 .../dlrm_two_rad/modules/embedding_lookup.cpp | 40 ++++++++++---------
 2 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
index a57070e..7f645e2 100644
--- a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
@@ -115,6 +115,26 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        unsigned int transaction_id = _id_count[ch_id].read();
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          transaction_id++;
+          _id_count[ch_id].write(transaction_id);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -133,7 +153,7 @@ void embedding_lookup::Tick() {
           }*/
 
           aximm_req_interface[ch_id].araddr.write(dst_addr);
-          aximm_req_interface[ch_id].arid.write(_id_count[ch_id].read());
+          aximm_req_interface[ch_id].arid.write(transaction_id);
           aximm_req_interface[ch_id].arlen.write(0);
           aximm_req_interface[ch_id].arburst.write(0);
           aximm_req_interface[ch_id].arsize.write(0);
@@ -147,24 +167,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
index 4f678fa..114f43b 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
@@ -116,6 +116,26 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        unsigned int transaction_id = _id_count[ch_id].read();
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          transaction_id++;
+          _id_count[ch_id].write(transaction_id);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -134,7 +154,7 @@ void embedding_lookup::Tick() {
           }*/
 
           aximm_req_interface[ch_id].araddr.write(dst_addr);
-          aximm_req_interface[ch_id].arid.write(_id_count[ch_id].read());
+          aximm_req_interface[ch_id].arid.write(transaction_id);
           aximm_req_interface[ch_id].arlen.write(0);
           aximm_req_interface[ch_id].arburst.write(0);
           aximm_req_interface[ch_id].arsize.write(0);
@@ -148,24 +168,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
-- 
2.43.0


From d84314b916c0b54cb59dbfed7339768fa6db20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 23/34] fix: feature interaction waits for the word it selects
 but does not pop

---
 rad-sim/example-designs/dlrm/modules/feature_interaction.cpp  | 4 ++++
 .../dlrm_two_rad/modules/feature_interaction.cpp              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
index 1479095..c21d739 100644
--- a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
@@ -149,6 +149,10 @@ bool are_ififos_ready(sc_vector<sc_signal<bool>> &ififo_empty,
 
   bool ready = true;
   bool fifos_popped = (inst.mux_select > 0);
+  // The selected iFIFO is read even if it is not popped
+  if (inst.mux_select > 0 && inst.mux_select <= inst.fifo_pops.size()) {
+    ready &= !ififo_empty[inst.mux_select - 1].read();
+  }
   for (unsigned int ch_id = 0; ch_id < inst.fifo_pops.size(); ch_id++) {
     if (inst.fifo_pops[ch_id]) {
       fifos_popped = true;
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
index 1479095..c21d739 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
@@ -149,6 +149,10 @@ bool are_ififos_ready(sc_vector<sc_signal<bool>> &ififo_empty,
 
   bool ready = true;
   bool fifos_popped = (inst.mux_select > 0);
+  // The selected iFIFO is read even if it is not popped
+  if (inst.mux_select > 0 && inst.mux_select <= inst.fifo_pops.size()) {
+    ready &= !ififo_empty[inst.mux_select - 1].read();
+  }
   for (unsigned int ch_id = 0; ch_id < inst.fifo_pops.size(); ch_id++) {
     if (inst.fifo_pops[ch_id]) {
       fifos_popped = true;
-- 
2.43.0


From 712f8865e493dce0d2b57a93989c0f6a600e2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 24/34] fix: adder and multiplier forget a finished stream on
 reset

---
 rad-sim/example-designs/add/modules/adder.cpp | 1 +
 rad-sim/example-designs/mult/modules/mult.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rad-sim/example-designs/add/modules/adder.cpp b/rad-sim/example-designs/add/modules/adder.cpp
index 5d8f1e0..3017728 100644
--- a/rad-sim/example-designs/add/modules/adder.cpp
+++ b/rad-sim/example-designs/add/modules/adder.cpp
@@ -33,6 +33,7 @@ void adder::Assign() {
 void adder::Tick() {
   response_valid.write(0);
   response.write(0);
+  t_finished.write(0);
   int count_in_addends = 0;
   wait();
 
diff --git a/rad-sim/example-designs/mult/modules/mult.cpp b/rad-sim/example-designs/mult/modules/mult.cpp
index f32020a..e927669 100644
--- a/rad-sim/example-designs/mult/modules/mult.cpp
+++ b/rad-sim/example-designs/mult/modules/mult.cpp
@@ -32,6 +32,7 @@ void mult::Assign() {
 void mult::Tick() {
   response_valid.write(0);
   response.write(0);
+  t_finished.write(0);
   wait();
 
   int curr_cycle;
-- 
2.43.0


From b7823dd98f82e623e8d5a5c6c1c034828eac6d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:17 +0000
Subject: [PATCH 25/34] fix: AXI-MM base addresses name the destination node in
 the bits the adapters decode

---
 rad-sim/sim/design_context.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..5b3460c 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -70,20 +70,15 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
   return module_name;
 }
 
+// The NoC adapters take the destination node from the AXI4_NODE_ADDRW most
+// significant address bits, so the NoC ID goes right below them.
 uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
   int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
   int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
-  uint64_t base_addr = noc_id << node_bits;
-  base_addr += node_id;
-  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
+  uint64_t base_addr = node_id;
+  base_addr <<= noc_bits;
+  base_addr += noc_id;
+  base_addr <<= (AXI4_ADDRW - AXI4_NODE_ADDRW - noc_bits);
   return base_addr;
 }
 
-- 
2.43.0


From 6eb46aa0a0f69bba1b816f22c22b688e2702a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 26/34] fix: a configuration can be shared by more RADs than
 there are configurations

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..bc629c9 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -332,7 +332,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
-- 
2.43.0


From c97d0f5f2e04525bdac3029617f1ae024ca1a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 27/34] fix: BookSim configuration files are named after the
 RAD that reads them

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index bc629c9..0485cba 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -98,7 +98,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
-- 
2.43.0


From a30e0a0e5fadb0d68476e80de14655662532765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 28/34] fix: main.cpp instantiates the design of each RAD's own
 configuration

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 0485cba..d935732 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -397,7 +397,7 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        design_name = radsim_knobs[config_names.index(cluster_knobs["cluster_configs"][i])]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From cf3dfd3a4ea9b5ed1c25b4cc53bfd0429b5d95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 29/34] fix: inter-RAD bandwidth fractions use the power of ten
 of their decimal places

---
 rad-sim/config.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index d935732..3e8a7e4 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -318,13 +318,12 @@ def get_fraction(input_val):
     if remainder == 0: #whole number
         return (int(input_val), 1)
     else:
-        count = 0
-        while (remainder % 1 != 0):
-            remainder *= 10
-            count += 1
-        b = count * 10
-        a = (( input_val-(input_val%1) ) * b) + remainder
-        return (int(a), b)
+        a = round(input_val * 1000)
+        b = 1000
+        while (b > 1 and a % 10 == 0):
+            a //= 10
+            b //= 10
+        return (a, b)
 
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
-- 
2.43.0


From 144df574d4157abf35e16e85c00a44bc9e488f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 30/34] fix: anynet NoCs look up their node count in the shared
 header parameters

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 3e8a7e4..69b18f5 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -146,7 +146,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_header_params["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From b5ae263754661ddb5ccb2e127a4cc965f2d18e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:44 +0000
Subject: [PATCH 31/34] fix: node counts of several NoCs do not have to be
 listed in the configuration

---
 rad-sim/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 69b18f5..173bcd1 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -76,6 +76,10 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
     if config_counter != num_configs:
         print('number of unique config sections in config YAML file does not match commandline argument')
         exit(-1)
+
+    # The number of nodes is only given for anynet topologies, so make room for the one of every NoC
+    for params in radsim_knobs + [radsim_header_params]:
+        params["noc_num_nodes"] += [0] * (radsim_knobs[0]["noc_num_nocs"] - len(params["noc_num_nodes"]))
     
 
 def print_config(booksim_params, radsim_header_params, radsim_knobs):
-- 
2.43.0


From d98ce67e9ef52ce34193b5368ff96fbed571b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 32/34] fix: reset the valid flags between the NPU's external
 register file and its output FIFOs

---
 rad-sim/example-designs/npu/modules/evrf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/example-designs/npu/modules/evrf.cpp b/rad-sim/example-designs/npu/modules/evrf.cpp
index d76ee71..b580476 100644
--- a/rad-sim/example-designs/npu/modules/evrf.cpp
+++ b/rad-sim/example-designs/npu/modules/evrf.cpp
@@ -171,6 +171,9 @@ void evrf::Tick() {
     inst_pipeline[stage_id].write(reset_uop);
     inst_valid_pipeline[stage_id].write(false);
   }
+  for (unsigned int stage_id = 0; stage_id < EVRF_RF_TO_OFIFO_PIPELINE; stage_id++)
+    for (unsigned int core_id = 0; core_id < CORES; core_id++)
+      vrf_to_ofifo_valid_pipeline[stage_id][core_id].write(false);
   vrf_clk_en.write(false);
   wait();
 
-- 
2.43.0


From db4d093a318ab0b397a41c5cd4a1332a7c5236d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:02 +0000
Subject: [PATCH 33/34] fix: reset the handshake flags of the NPU's
 macro-operation dispatcher and decoders

---
 rad-sim/example-designs/npu/modules/decoders.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rad-sim/example-designs/npu/modules/decoders.cpp b/rad-sim/example-designs/npu/modules/decoders.cpp
index 4530cd6..4b7dd08 100644
--- a/rad-sim/example-designs/npu/modules/decoders.cpp
+++ b/rad-sim/example-designs/npu/modules/decoders.cpp
@@ -234,9 +234,14 @@ void vliw_inst_dispatch::Tick() {
     mfu0_dispatch_flag[sector_id].write(false);
     mfu1_pc[sector_id].write(0);
     mfu1_dispatch_flag[sector_id].write(false);
+    sector_mop_fifo_wen[sector_id].write(false);
+    evrf_mop_fifo_wen[sector_id].write(false);
+    mfu0_mop_fifo_wen[sector_id].write(false);
+    mfu1_mop_fifo_wen[sector_id].write(false);
   }
   ld_pc.write(0);
   ld_dispatch_flag.write(false);
+  ld_mop_fifo_wen.write(false);
   wait();
 
   // Sequential logic
@@ -314,6 +319,8 @@ void sector_and_accum_decoder::Assign() {
 void sector_and_accum_decoder::Tick() {
   // Reset logic
   decode_state.write(DEC_MVU_READ_INST);
+  mop_fifo_ren.write(false);
+  uop_wen.write(false);
   batch_counter.write(0);
   vrf_counter.write(0);
   pipeline_counter.write(0);
@@ -538,6 +545,8 @@ void evrf_decoder::Assign() {
 void evrf_decoder::Tick() {
   // Reset logic
   decode_state.write(DEC_EVRF_READ_INST);
+  mop_fifo_ren.write(false);
+  uop_wen.write(false);
   evrf_batch_counter.write(0);
   evrf_addr_counter.write(0);
   wait();
@@ -668,6 +677,8 @@ void mfu_decoder::Assign() {
 void mfu_decoder::Tick() {
   // Reset logic
   decode_state.write(DEC_MFU_READ_INST);
+  mop_fifo_ren.write(false);
+  uop_wen.write(false);
   mfu_batch_counter.write(0);
   mfu_counter.write(0);
   mfu_size.write(0);
@@ -771,6 +782,8 @@ ld_decoder::~ld_decoder() {}
 void ld_decoder::Tick() {
   // Reset logic
   decode_state.write(DEC_LD_READ_INST);
+  mop_ren.write(false);
+  uop_wen.write(false);
   ld_batch_counter.write(0);
   ld_batch.write(0);
   ld_counter.write(0);
-- 
2.43.0


From 88de27d00ab60012fac6f84a1ee1405e7d00fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:23 +0000
Subject: [PATCH 34/34] fix: reset every valid stage and the operand counters
 of the NPU's dot-product engines

---
 rad-sim/example-designs/npu/modules/dpe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/npu/modules/dpe.cpp b/rad-sim/example-designs/npu/modules/dpe.cpp
index e60676f..092a8b2 100644
--- a/rad-sim/example-designs/npu/modules/dpe.cpp
+++ b/rad-sim/example-designs/npu/modules/dpe.cpp
@@ -49,8 +49,9 @@ void dpe::AdvanceControlPipelines(){
         valid_b_delay[i].write( false );
     }
     for( unsigned int i = 0; i < DPE_VALID_A_PIPELINE; i++ ){
-        result_valid_delay[0].write( false );
+        result_valid_delay[i].write( false );
     }
+    batch_counter = 0; tb_counter = 0;
     wait();
 
     while( true ){
-- 
2.43.0

