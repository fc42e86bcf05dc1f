From d02384406d4056fb9281594d16518c2e2319e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 01/53] fix: count NoC router and channel delays in cycles

Router pipeline stages, credit processing and channel traversal were timed
with GetSimTime(), which is in picoseconds in RAD-Sim. A routing, VC or switch
allocation delay of more than one cycle aborted on an assertion, longer channel
and credit delays had no effect, and the int wrapped after 2^31 ps. Requests
arriving while an earlier multi-cycle one is pending are stamped as well.
---
 rad-sim/sim/noc/booksim/channel.hpp           | 11 ++--
 rad-sim/sim/noc/booksim/routers/iq_router.cpp | 53 ++++++++++---------
 rad-sim/sim/noc/booksim/routers/iq_router.hpp |  3 ++
 3 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/channel.hpp b/rad-sim/sim/noc/booksim/channel.hpp
index 8742856..53d55d8 100644
--- a/rad-sim/sim/noc/booksim/channel.hpp
+++ b/rad-sim/sim/noc/booksim/channel.hpp
@@ -72,12 +72,14 @@ protected:
   T * _input;
   T * _output;
   deque<pair<int, T *> > _wait_queue;
+  // Number of NoC cycles so far: the delay is counted in cycles
+  int _cycle;
 
 };
 
 template<typename T>
 Channel<T>::Channel(Module * parent, string const & name)
-  : TimedModule(parent, name), _delay(1), _input(0), _output(0) {
+  : TimedModule(parent, name), _delay(1), _input(0), _output(0), _cycle(0) {
 }
 
 template<typename T>
@@ -100,8 +102,9 @@ T * Channel<T>::Receive() {
 
 template<typename T>
 void Channel<T>::ReadInputs() {
+  ++_cycle;
   if(_input) {
-    _wait_queue.push_back(make_pair(GetSimTime() + _delay - 1, _input));
+    _wait_queue.push_back(make_pair(_cycle + _delay - 1, _input));
     _input = 0;
   }
 }
@@ -114,10 +117,10 @@ void Channel<T>::WriteOutputs() {
   }
   pair<int, T *> const & item = _wait_queue.front();
   int const & time = item.first;
-  if(GetSimTime() < time) {
+  if(_cycle < time) {
     return;
   }
-  //assert(GetSimTime() == time);
+  assert(_cycle == time);
   _output = item.second;
   assert(_output);
   _wait_queue.pop_front();
diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.cpp b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
index 2f66207..9cb3a06 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.cpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
@@ -49,7 +49,7 @@
 
 IQRouter::IQRouter( Configuration const & config, Module *parent, 
 		    string const & name, int id, int inputs, int outputs )
-: Router( config, parent, name, id, inputs, outputs ), _active(false)
+: Router( config, parent, name, id, inputs, outputs ), _active(false), _cycle(0)
 {
   _vcs         = config.GetInt( "num_vcs" );
 
@@ -221,6 +221,7 @@ void IQRouter::AddOutputChannel(FlitChannel * channel, CreditChannel * backchann
 
 void IQRouter::ReadInputs( )
 {
+  ++_cycle;
   bool have_flits = _ReceiveFlits( );
   bool have_credits = _ReceiveCredits( );
   _active = _active || have_flits || have_credits;
@@ -326,7 +327,7 @@ bool IQRouter::_ReceiveCredits( )
   for(int output = 0; output < _outputs; ++output) {  
     Credit * const c = _output_credits[output]->Receive();
     if(c) {
-      _proc_credits.push_back(make_pair(GetSimTime() + _credit_delay, 
+      _proc_credits.push_back(make_pair(_cycle + _credit_delay, 
 					make_pair(c, output)));
       activity = true;
     }
@@ -427,7 +428,7 @@ void IQRouter::_InputQueuing( )
     pair<int, pair<Credit *, int> > const & item = _proc_credits.front();
 
     int const time = item.first;
-    if(GetSimTime() < time) {
+    if(_cycle < time) {
       break;
     }
 
@@ -471,9 +472,9 @@ void IQRouter::_RouteEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
-    iter->first = GetSimTime() + _routing_delay - 1;
+    iter->first = _cycle + _routing_delay - 1;
     
     int const input = iter->second.first;
     assert((input >= 0) && (input < _inputs));
@@ -508,10 +509,10 @@ void IQRouter::_RouteUpdate( )
     pair<int, pair<int, int> > const & item = _route_vcs.front();
 
     int const time = item.first;
-    if((time < 0) || (GetSimTime() < time)) {
+    if((time < 0) || (_cycle < time)) {
       break;
     }
-    assert(GetSimTime() == time);
+    assert(_cycle == time);
 
     int const input = item.second.first;
     assert((input >= 0) && (input < _inputs));
@@ -565,7 +566,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -714,9 +715,9 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
-    iter->first = GetSimTime() + _vc_alloc_delay - 1;
+    iter->first = _cycle + _vc_alloc_delay - 1;
 
     int const input = iter->second.first.first;
     assert((input >= 0) && (input < _inputs));
@@ -784,7 +785,7 @@ void IQRouter::_VCAllocEvaluate( )
     
     int const time = iter->first;
     assert(time >= 0);
-    if(GetSimTime() < time) {
+    if(_cycle < time) {
       break;
     }
     
@@ -849,10 +850,10 @@ void IQRouter::_VCAllocUpdate( )
     pair<int, pair<pair<int, int>, int> > const & item = _vc_alloc_vcs.front();
 
     int const time = item.first;
-    if((time < 0) || (GetSimTime() < time)) {
+    if((time < 0) || (_cycle < time)) {
       break;
     }
-    assert(GetSimTime() == time);
+    assert(_cycle == time);
 
     int const input = item.second.first.first;
     assert((input >= 0) && (input < _inputs));
@@ -941,9 +942,9 @@ void IQRouter::_SWHoldEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
-    iter->first = GetSimTime();
+    iter->first = _cycle;
     
     int const input = iter->second.first.first;
     assert((input >= 0) && (input < _inputs));
@@ -1017,7 +1018,7 @@ void IQRouter::_SWHoldUpdate( )
     if(time < 0) {
       break;
     }
-    assert(GetSimTime() == time);
+    assert(_cycle == time);
     
     int const input = item.second.first.first;
     assert((input >= 0) && (input < _inputs));
@@ -1337,7 +1338,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -1503,9 +1504,9 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
-    iter->first = GetSimTime() + _sw_alloc_delay - 1;
+    iter->first = _cycle + _sw_alloc_delay - 1;
 
     int const input = iter->second.first.first;
     assert((input >= 0) && (input < _inputs));
@@ -1644,7 +1645,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     assert(time >= 0);
-    if(GetSimTime() < time) {
+    if(_cycle < time) {
       break;
     }
 
@@ -1845,10 +1846,10 @@ void IQRouter::_SWAllocUpdate( )
     pair<int, pair<pair<int, int>, int> > const & item = _sw_alloc_vcs.front();
 
     int const time = item.first;
-    if((time < 0) || (GetSimTime() < time)) {
+    if((time < 0) || (_cycle < time)) {
       break;
     }
-    assert(GetSimTime() == time);
+    assert(_cycle == time);
 
     int const input = item.second.first.first;
     assert((input >= 0) && (input < _inputs));
@@ -2145,9 +2146,9 @@ void IQRouter::_SwitchEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
-    iter->first = GetSimTime() + _crossbar_delay - 1;
+    iter->first = _cycle + _crossbar_delay - 1;
 
     Flit const * const f = iter->second.first;
     assert(f);
@@ -2174,10 +2175,10 @@ void IQRouter::_SwitchUpdate( )
     pair<int, pair<Flit *, pair<int, int> > > const & item = _crossbar_flits.front();
 
     int const time = item.first;
-    if((time < 0) || (GetSimTime() < time)) {
+    if((time < 0) || (_cycle < time)) {
       break;
     }
-    assert(GetSimTime() == time);
+    assert(_cycle == time);
 
     Flit * const f = item.second.first;
     assert(f);
diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.hpp b/rad-sim/sim/noc/booksim/routers/iq_router.hpp
index fa535a3..a64b65c 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.hpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.hpp
@@ -63,6 +63,9 @@ class IQRouter : public Router {
   
   bool _active;
 
+  // Number of NoC cycles so far: all pipeline delays are counted in cycles
+  int _cycle;
+
   int _routing_delay;
   int _vc_alloc_delay;
   int _sw_alloc_delay;
-- 
2.43.0


From e0e2f253fa7181a333b68805ecc69af1e0b370a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 02/53] fix: return every ejection credit to the NoC

Adapters note ejected flits per node in a map, so that a second flit ejected by
a node before the next NoC cycle (adapter clock faster than the NoC clock) was
not recorded and its credit was lost. After a few such events the node's
ejection port deadlocked.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp |  2 +-
 rad-sim/sim/noc/aximm_master_adapter.hpp |  4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  |  2 +-
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/axis_master_adapter.cpp  |  2 +-
 rad-sim/sim/noc/axis_master_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/radsim_noc.cpp           | 12 +++++++-----
 rad-sim/sim/noc/radsim_noc.hpp           |  4 ++--
 8 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..7ab68e4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -4,7 +4,7 @@ aximm_master_adapter::aximm_master_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..d9f3cb4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -35,7 +35,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   // Request Interface variables
   Flit *_ejected_booksim_flit;
@@ -89,7 +89,7 @@ public:
                        BookSimConfig *noc_config, Network *noc,
                        BufferState *buffer_state, tRoutingFunction routing_func,
                        bool lookahead_routing, bool wait_for_tail_credit,
-                       map<int, int> *ejected_flits,
+                       multimap<int, int> *ejected_flits,
                        unsigned int interface_dataw, double node_period,
                        double adapter_period);
   ~aximm_master_adapter();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..c4674a1 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -6,7 +6,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..c1d951b 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -70,7 +70,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   /* Request interface signals for storing selected input request transaction
    * based on the following table:
@@ -170,7 +170,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits,
+                      multimap<int, int> *ejected_flits,
                       unsigned int interface_dataw, double node_period,
                       double adapter_period);
   ~aximm_slave_adapter() override;
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..5f9118d 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -6,7 +6,7 @@ axis_master_adapter::axis_master_adapter(
     std::vector<unsigned int> &interface_dataw, BookSimConfig *noc_config,
     Network *noc, BufferState *buffer_state, tRoutingFunction routing_func,
     bool lookahead_routing, bool wait_for_tail_credit,
-    map<int, int> *ejected_flits)
+    multimap<int, int> *ejected_flits)
     : sc_module(name) {
   _rad_id = rad_id;
   _node_id = node_id;
diff --git a/rad-sim/sim/noc/axis_master_adapter.hpp b/rad-sim/sim/noc/axis_master_adapter.hpp
index 38d81ba..ac36a0c 100644
--- a/rad-sim/sim/noc/axis_master_adapter.hpp
+++ b/rad-sim/sim/noc/axis_master_adapter.hpp
@@ -30,7 +30,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   Flit *_ejected_booksim_flit;
   unsigned int _ejection_afifo_depth;
@@ -59,7 +59,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits);
+                      multimap<int, int> *ejected_flits);
   ~axis_master_adapter();
 
   void write_sc_packet_to_axis_output(sc_packet &packet,
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 4bd974f..f6616ab 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -38,7 +38,7 @@ radsim_noc::radsim_noc(const sc_module_name &name, unsigned int rad_id, std::str
   _wait_for_tail_credit = _config.GetInt("wait_for_tail_credit");
 
   // Create ejected flits map and buffer states for all routers in all subnets
-  _ejected_flits = new map<int, int>();
+  _ejected_flits = new multimap<int, int>();
   _buffer_state.resize(_num_noc_nodes);
   for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
     std::ostringstream tmp_name;
@@ -296,7 +296,7 @@ BufferState *radsim_noc::GetBufferState(int node) {
   return _buffer_state[node];
 }
 
-map<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
+multimap<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 
 void radsim_noc::Tick() {
   // Reset Code
@@ -305,14 +305,16 @@ void radsim_noc::Tick() {
   while (true) {
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
-      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
-      if (iter != _ejected_flits->end()) {
+      // Send one credit per cycle, the oldest first. The others (e.g. if the
+      // adapter clock is faster than the NoC clock) wait for the next cycles.
+      multimap<int, int>::iterator iter = _ejected_flits->lower_bound(node_id);
+      if (iter != _ejected_flits->end() && iter->first == node_id) {
         Credit *const c = Credit::New();
         c->vc.insert(iter->second);
         _booksim_noc->WriteCredit(c, node_id);
+        _ejected_flits->erase(iter);
       }
     }
-    _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
     _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index b6328b9..7f7a86f 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -30,7 +30,7 @@ private:
   bool _lookahead_routing;                  // Is lookahead routing used?
   bool _wait_for_tail_credit;               // Do we wait for tail credit?
   std::vector<BufferState *> _buffer_state; // Vector of buffer state pointers
-  std::map<int, int>
+  std::multimap<int, int>
       *_ejected_flits; // Ejected flit map <node, virtual channel>
 
   unsigned int _num_axis_slave_endpoints, _num_axis_master_endpoints;
@@ -65,7 +65,7 @@ public:
   bool IsLookaheadRouting() const;
   bool IsWaitForTailCredit() const;
   BufferState *GetBufferState(int node);
-  map<int, int> *GetEjectedFlitsMap();
+  multimap<int, int> *GetEjectedFlitsMap();
 
   void Tick();
   SC_HAS_PROCESS(radsim_noc);
-- 
2.43.0


From 816cdaa52c52d90ba47adcbe291831219d4c2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 03/53] fix: deliver AXI-MM burst, size and length from the
 control field

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 7ab68e4..d6db92c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -278,13 +278,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -315,13 +315,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From 93db1eca8aaff1ad135d52e1e6b5aa9e22b25bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 04/53] fix: packetize every bit of AXI-MM AR, AW and B
 transactions

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index d6db92c..218cf01 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -491,7 +491,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index c4674a1..7df458d 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -293,7 +293,8 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) * 1.0 /
                                   NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
-- 
2.43.0


From a1310fbc4f01d44b335231bca64e41918180a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 05/53] fix: hand each AXI-MM transaction to packetization
 exactly once

The captured transaction was passed on as a level sampled with the adapter
clock: with a node clock period that is not a multiple of the adapter clock
period it was sampled twice, and with a slower adapter clock it was overwritten
before it was sampled. Single-flit transactions at equal clocks stalled for 255
cycles because the cycle counter stepped over its limit.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 24 ++++++++++++--------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  3 ++-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 29 ++++++++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  3 ++-
 4 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 218cf01..fe583b3 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -66,7 +66,7 @@ aximm_master_adapter::aximm_master_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.rvalid
             << aximm_interface.bvalid << _injection_priority_setting
-            << _packetization_cycle << rst;
+            << _packetization_cycle << _i_count << _packetized_count << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -386,8 +386,12 @@ void aximm_master_adapter::InputReady() {
     // simultaneously.
     assert(!(_rready && _bready));
   }
-  aximm_interface.rready.write((_packetization_cycle.read() == 0) && _rready);
-  aximm_interface.bready.write((_packetization_cycle.read() == 0) && _bready);
+  // The previously captured transaction must have been fully packetized before
+  // another one can be captured
+  bool idle = (_packetization_cycle.read() == 0) &&
+              (_i_count.read() == _packetized_count.read());
+  aximm_interface.rready.write(idle && _rready);
+  aximm_interface.bready.write(idle && _bready);
 }
 
 int aximm_master_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
@@ -404,7 +408,7 @@ void aximm_master_adapter::InputInterface() {
   _i_payload.write(0);
   _i_ctrl.write(0);
   _i_user.write(0);
-  _i_valid.write(false);
+  _i_count.write(0);
   _i_type.write(0);
   _i_noc_dest.write(0);
   _i_resp.write(0);
@@ -422,7 +426,7 @@ void aximm_master_adapter::InputInterface() {
       _i_resp.write(aximm_interface.rresp.read());
       _i_last.write(aximm_interface.rlast.read());
       _i_user.write(aximm_interface.ruser.read());
-      _i_valid.write(aximm_interface.rvalid.read());
+      _i_count.write(_i_count.read() + 1);
       _i_type.write(AXI_TYPE_R);
       sc_bv<AXI4_ADDRW> resp_addr = aximm_interface.ruser.read().to_uint64();
       int noc_dest = GetInputDestinationNode(resp_addr);
@@ -444,7 +448,7 @@ void aximm_master_adapter::InputInterface() {
       _i_id.write(aximm_interface.bid.read());
       _i_resp.write(aximm_interface.bresp.read());
       _i_user.write(aximm_interface.buser.read());
-      _i_valid.write(aximm_interface.bvalid.read());
+      _i_count.write(_i_count.read() + 1);
       _i_type.write(AXI_TYPE_B);
       sc_bv<AXI4_ADDRW> resp_addr = aximm_interface.buser.read().to_uint64();
       int noc_dest = GetInputDestinationNode(resp_addr);
@@ -461,8 +465,6 @@ void aximm_master_adapter::InputInterface() {
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
       _i_unique_sim_id.write(unique_sim_id);
-    } else {
-      _i_valid.write(false);
     }
     wait();
   }
@@ -475,13 +477,14 @@ void aximm_master_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
+  _packetized_count.write(0);
   _injection_afifo_full.write(false);
   wait();
 
   while (true) {
     // If a valid transaction is selected and asynchronous injection FIFO has
     // empty slots
-    if (_i_valid.read()) {
+    if (_i_count.read() != _packetized_count.read()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -529,6 +532,7 @@ void aximm_master_adapter::InputPacketization() {
           }
         }
         _num_packetization_flits.write(num_flits);
+        _packetized_count.write(_i_count.read());
         _packetization_cycle.write(_packetization_cycle.read() + 1);
       }
     }
@@ -540,7 +544,7 @@ void aximm_master_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         NoCTransactionTelemetry::RecordTransactionTailPacketization(
             _i_unique_sim_id.read());
         _packetization_cycle.write(0);
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index d9f3cb4..415751e 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -57,7 +57,8 @@ private:
   sc_signal<sc_bv<AXI4_USERW>> _i_user;
   sc_signal<sc_bv<AXI4_RESPW>> _i_resp;
   sc_signal<sc_bv<1>> _i_last;
-  sc_signal<bool> _i_valid;
+  sc_signal<unsigned int> _i_count; // Transactions captured so far
+  sc_signal<unsigned int> _packetized_count; // Transactions packetized so far
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 7df458d..d8625b0 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -51,7 +51,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
-            << _injection_priority_setting << _packetization_cycle << rst;
+            << _injection_priority_setting << _packetization_cycle << _i_count
+            << _packetized_count << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -132,9 +133,13 @@ void aximm_slave_adapter::InputReady() {
             !(_arready && _awready && _wready)) ||
            (!_arready && !_awready && !_wready));
   }
-  aximm_interface.awready.write((_packetization_cycle.read() == 0) && _awready);
-  aximm_interface.wready.write((_packetization_cycle.read() == 0) && _wready);
-  aximm_interface.arready.write((_packetization_cycle.read() == 0) && _arready);
+  // The previously captured transaction must have been fully packetized before
+  // another one can be captured
+  bool idle = (_packetization_cycle.read() == 0) &&
+              (_i_count.read() == _packetized_count.read());
+  aximm_interface.awready.write(idle && _awready);
+  aximm_interface.wready.write(idle && _wready);
+  aximm_interface.arready.write(idle && _arready);
 }
 
 // Implements the input interface capturing into the reduced set of signals to
@@ -146,7 +151,7 @@ void aximm_slave_adapter::InputInterface() {
   _i_payload.write(0);
   _i_ctrl.write(0);
   _i_user.write(0);
-  _i_valid.write(false);
+  _i_count.write(0);
   _i_type.write(0);
   _i_noc_dest.write(0);
   _i_resp.write(0);
@@ -173,7 +178,7 @@ void aximm_slave_adapter::InputInterface() {
           aximm_interface.arlen.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.aruser.read());
-      _i_valid.write(aximm_interface.arvalid.read());
+      _i_count.write(_i_count.read() + 1);
       _i_type.write(AXI_TYPE_AR);
       sc_bv<AXI4_ADDRW> araddr = aximm_interface.araddr.read();
       int noc_dest = GetInputDestinationNode(araddr);
@@ -205,7 +210,7 @@ void aximm_slave_adapter::InputInterface() {
           aximm_interface.awlen.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.awuser.read());
-      _i_valid.write(aximm_interface.awvalid.read());
+      _i_count.write(_i_count.read() + 1);
       _i_type.write(AXI_TYPE_AW);
       sc_bv<AXI4_ADDRW> awaddr = aximm_interface.awaddr.read();
       int noc_dest = GetInputDestinationNode(awaddr);
@@ -231,7 +236,7 @@ void aximm_slave_adapter::InputInterface() {
       tmp_ctrl.range(0, 0) = aximm_interface.wlast.read();
       _i_ctrl.write(tmp_ctrl);
       _i_user.write(aximm_interface.wuser.read());
-      _i_valid.write(aximm_interface.wvalid.read());
+      _i_count.write(_i_count.read() + 1);
       _i_type.write(AXI_TYPE_W);
       _i_last.write(aximm_interface.wlast.read());
       _i_noc_dest.write(_last_awdest.read());
@@ -248,8 +253,6 @@ void aximm_slave_adapter::InputInterface() {
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
                 << std::endl;*/
-    } else {
-      _i_valid.write(false);
     }
     wait();
   }
@@ -272,6 +275,7 @@ void aximm_slave_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
+  _packetized_count.write(0);
   _injection_afifo_full.write(false);
   _last_awdest.write(0);
   wait();
@@ -279,7 +283,7 @@ void aximm_slave_adapter::InputPacketization() {
   while (true) {
     // If a valid transaction is selected and asynchronous injection FIFO has
     // empty slots
-    if (_i_valid.read()) {
+    if (_i_count.read() != _packetized_count.read()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -339,6 +343,7 @@ void aximm_slave_adapter::InputPacketization() {
           }
         }
         _num_packetization_flits.write(num_flits);
+        _packetized_count.write(_i_count.read());
         _packetization_cycle.write(_packetization_cycle.read() + 1);
       }
     }
@@ -350,7 +355,7 @@ void aximm_slave_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         NoCTransactionTelemetry::RecordTransactionTailPacketization(
             _i_unique_sim_id.read());
         _packetization_cycle.write(0);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index c1d951b..ae79bda 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -93,7 +93,8 @@ private:
   sc_signal<sc_bv<AXI4_USERW>> _i_user;
   sc_signal<sc_bv<AXI4_RESPW>> _i_resp;
   sc_signal<sc_bv<1>> _i_last;
-  sc_signal<bool> _i_valid;
+  sc_signal<unsigned int> _i_count; // Transactions captured so far
+  sc_signal<unsigned int> _packetized_count; // Transactions packetized so far
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
-- 
2.43.0


From c06c7a238e88e6911eb3b56238c7aaa775625eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 06/53] fix: hold AXI-MM transfers until the receiver accepts
 them

The adapters offered a transfer for a single cycle when they had seen ready in
the cycle before, so it was lost when the receiver was no longer ready. They now
keep it until valid and ready are both high, and the memory controller accepts a
request in exactly those cycles.
---
 rad-sim/sim/dram/mem_controller.cpp      | 25 +++++----------------
 rad-sim/sim/noc/aximm_master_adapter.cpp | 28 ++++++++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 21 +++++++++++-------
 3 files changed, 35 insertions(+), 39 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..3b1222b 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -374,24 +374,9 @@ void mem_controller::Tick() {
 
   while (true) {
     for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
-      bool rd_iqueue_ok = _read_address_queue[ch_id].size() < _input_queue_size;
-      bool rd_oqueue_ok =
-          (_outstanding_read_requests[ch_id].size() +
-           _output_read_responses[ch_id].size()) < _output_queue_size;
-      bool wr_oqueue_ok =
-          (_outstanding_write_requests[ch_id].size() +
-           _output_write_responses[ch_id].size()) < _output_queue_size;
-
-      bool awready_flag =
-          _write_address_queue_occupancy[ch_id] < _input_queue_size;
-      bool wready_flag =
-          _write_address_queue_occupancy[ch_id] > 0 &&
-          _write_data_queue_occupancy[ch_id] < _input_queue_size &&
-          wr_oqueue_ok;
-      bool arready_flag = rd_iqueue_ok && rd_oqueue_ok;
-
       // Accepting write address requests
-      if (mem_channels[ch_id].awvalid.read() && awready_flag) {
+      if (mem_channels[ch_id].awvalid.read() &&
+          mem_channels[ch_id].awready.read()) {
         unsigned int transaction_size_in_bytes =
             (1 << mem_channels[ch_id].awsize.read().to_uint());
         unsigned int transaction_size = (unsigned int)ceil(
@@ -411,7 +396,8 @@ void mem_controller::Tick() {
       _write_address_queue_occupancy[ch_id].write(
           _write_address_queue[ch_id].size());
       // Accepting write data requests
-      if (mem_channels[ch_id].wvalid.read() && wready_flag) {
+      if (mem_channels[ch_id].wvalid.read() &&
+          mem_channels[ch_id].wready.read()) {
         uint64_t resp_addr = mem_channels[ch_id].wuser.read().to_uint64();
         sc_bv<AXI4_MAX_DATAW> write_data = mem_channels[ch_id].wdata.read();
         _write_data_queue[ch_id].push(std::make_pair(resp_addr, write_data));
@@ -419,7 +405,8 @@ void mem_controller::Tick() {
       }
       _write_data_queue_occupancy[ch_id].write(_write_data_queue[ch_id].size());
       // Accepting read address requests
-      if (mem_channels[ch_id].arvalid.read() && arready_flag) {
+      if (mem_channels[ch_id].arvalid.read() &&
+          mem_channels[ch_id].arready.read()) {
         uint64_t resp_addr = mem_channels[ch_id].aruser.read().to_uint64();
         unsigned int transaction_size_in_bytes =
             (1 << mem_channels[ch_id].arsize.read().to_uint());
diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index fe583b3..db2ccaa 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -248,14 +248,26 @@ void aximm_master_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // Hold an offered request until it is accepted
+    if ((aximm_interface.arvalid.read() && !aximm_interface.arready.read()) ||
+        (aximm_interface.awvalid.read() && !aximm_interface.awready.read()) ||
+        (aximm_interface.wvalid.read() && !aximm_interface.wready.read())) {
+      wait();
+      continue;
+    }
+    if (aximm_interface.arvalid.read() || aximm_interface.awvalid.read() ||
+        aximm_interface.wvalid.read()) {
+      NoCTransactionTelemetry::RecordTransactionReceipt(
+          _output_packet.GetFlit(0)->_sim_transaction_id);
+    }
+
     if (!_output_afifo.empty() > 0 && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
       _output_packet_ready = true;
     }
     if (_output_packet_ready &&
-        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
-        aximm_interface.arready.read()) {
+        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -286,13 +298,10 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.arlen.write(
           ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
       // std::cout << this->name() << ": Got AR request!" << std::endl;
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::WRITE_REQUEST) &&
-               aximm_interface.awready.read()) {
+                Flit::FlitType::WRITE_REQUEST)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -323,12 +332,9 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.awlen.write(
           ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::WRITE_DATA) &&
-               aximm_interface.wready.read()) {
+                Flit::FlitType::WRITE_DATA)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -350,8 +356,6 @@ void aximm_master_adapter::OutputInterface() {
       aximm_interface.wdata.write(AXI4_DATA(temp_bv));
       aximm_interface.wuser.write(AXI4_USER(temp_bv));
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else {
       aximm_interface.arvalid.write(false);
       aximm_interface.awvalid.write(false);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index d8625b0..b4a23b2 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -628,6 +628,17 @@ void aximm_slave_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // Hold an offered response until it is accepted
+    if ((aximm_interface.bvalid.read() && !aximm_interface.bready.read()) ||
+        (aximm_interface.rvalid.read() && !aximm_interface.rready.read())) {
+      wait();
+      continue;
+    }
+    if (aximm_interface.bvalid.read() || aximm_interface.rvalid.read()) {
+      NoCTransactionTelemetry::RecordTransactionReceipt(
+          _output_packet.GetFlit(0)->_sim_transaction_id);
+    }
+
     if (!_output_afifo.empty() && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
@@ -635,8 +646,7 @@ void aximm_slave_adapter::OutputInterface() {
     }
 
     if (_output_packet_ready &&
-        (_output_packet.GetFlit(0)->_type == Flit::FlitType::WRITE_REPLY) &&
-        aximm_interface.bready.read()) {
+        (_output_packet.GetFlit(0)->_type == Flit::FlitType::WRITE_REPLY)) {
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
 
@@ -655,12 +665,9 @@ void aximm_slave_adapter::OutputInterface() {
       aximm_interface.buser.write(AXI4_USER(temp_bv));
       aximm_interface.bresp.write(AXI4_RESP(temp_bv));
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
     } else if (_output_packet_ready &&
                (_output_packet.GetFlit(0)->_type ==
-                Flit::FlitType::READ_REPLY) &&
-               aximm_interface.rready.read()) {
+                Flit::FlitType::READ_REPLY)) {
 
       sc_bv<AXI4_PAYLOADW> temp_bv;
       sc_flit *temp_flit = _output_packet.GetFlit(0);
@@ -682,8 +689,6 @@ void aximm_slave_adapter::OutputInterface() {
       aximm_interface.rdata.write(AXI4_DATA(temp_bv));
       aximm_interface.ruser.write(AXI4_USER(temp_bv));
       _output_packet_ready = false;
-      NoCTransactionTelemetry::RecordTransactionReceipt(
-          temp_flit->_sim_transaction_id);
       // std::cout << GetSimulationCycle(5.0) << " === " << this->name()
       //           << ": Got R response!" << std::endl;
     } else {
-- 
2.43.0


From 94ec884ad4a0b79395818c3dea58d0be65c639b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 07/53] fix: accept no AXI-MM write address while a write burst
 is open

The adapter sends write data to the node of the last write address it accepted,
so a second address accepted in the middle of a burst misrouted the rest of it,
and its end then blocked the second burst for ever.
---
 rad-sim/sim/noc/aximm_slave_adapter.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index b4a23b2..857d41c 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -52,7 +52,7 @@ aximm_slave_adapter::aximm_slave_adapter(
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
             << _injection_priority_setting << _packetization_cycle << _i_count
-            << _packetized_count << rst;
+            << _packetized_count << _got_aw << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -87,7 +87,8 @@ aximm_slave_adapter::~aximm_slave_adapter() {
 
 // Implements the input ready interface based on prioritized round-robin
 // arbitration. This decides which interface (AR, AW, W) is captured and pased
-// to the packetization stage. The W interface is not selected unless an AW
+// to the packetization stage. A write address is not selected before the data of
+// the previous write was received. The W interface is not selected unless an AW
 // transaction was previously captured and a W transaction with "last" flag is
 // not received yet.
 void aximm_slave_adapter::InputReady() {
@@ -103,13 +104,14 @@ void aximm_slave_adapter::InputReady() {
     if (_injection_priority_setting.read() == 0) {
       _arready = !_injection_afifo_full && aximm_interface.arvalid.read();
       flag = _arready;
-      _awready =
-          !_injection_afifo_full && !flag && aximm_interface.awvalid.read();
+      _awready = !_injection_afifo_full && !flag &&
+                 aximm_interface.awvalid.read() && !_got_aw.read();
       flag |= _awready;
       _wready = !_injection_afifo_full && !flag &&
                 aximm_interface.wvalid.read() && _got_aw.read();
     } else if (_injection_priority_setting.read() == 1) {
-      _awready = !_injection_afifo_full && aximm_interface.awvalid.read();
+      _awready = !_injection_afifo_full && aximm_interface.awvalid.read() &&
+                 !_got_aw.read();
       flag = _awready;
       _wready = !_injection_afifo_full && !flag &&
                 aximm_interface.wvalid.read() && _got_aw.read();
@@ -123,8 +125,8 @@ void aximm_slave_adapter::InputReady() {
       _arready =
           !_injection_afifo_full && !flag && aximm_interface.arvalid.read();
       flag |= _arready;
-      _awready =
-          !_injection_afifo_full && !flag && aximm_interface.awvalid.read();
+      _awready = !_injection_afifo_full && !flag &&
+                 aximm_interface.awvalid.read() && !_got_aw.read();
     }
 
     // Verify that at most one ready signal is asserted based on the current
-- 
2.43.0


From 8a98def1bbe666b18cf0b58bcb0e7870050e8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 08/53] fix: take DLRM read data only in cycles that signal
 ready

Read data is now held until it is accepted, so a beat taken while ready was low
would be taken twice.
---
 .../example-designs/dlrm/modules/custom_feature_interaction.cpp | 2 +-
 rad-sim/example-designs/dlrm/modules/feature_interaction.cpp    | 2 +-
 .../dlrm_two_rad/modules/custom_feature_interaction.cpp         | 2 +-
 .../dlrm_two_rad/modules/feature_interaction.cpp                | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
index 79522bc..73dad93 100644
--- a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
@@ -174,7 +174,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { 
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
index b0f423e..e88dbef 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
@@ -175,7 +175,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { //&& (radsim_design->rad_id == 0)) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
-- 
2.43.0


From 393c3f72473b3c69d3788fc7800db3bc94acbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 09/53] fix: compare UGAL path costs without integer overflow

---
 rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp b/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp
index 60f341d..f5444a7 100644
--- a/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp
+++ b/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp
@@ -765,7 +765,7 @@ void ugal_xyyx_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
 	  cout << " _min_hop " << _min_hop << " _min_queucnt: " <<_min_queucnt << " _nonmin_hop: " << _nonmin_hop << " _nonmin_queucnt :" << _nonmin_queucnt <<  endl;
 	}
 
-	if (_min_hop * _min_queucnt   <= _nonmin_hop * _nonmin_queucnt +threshold) {
+	if ((long long)_min_hop * _min_queucnt <= (long long)_nonmin_hop * _nonmin_queucnt + threshold) {
 
 	  if (debug) cout << " Route MINIMALLY " << endl;
 	  f->ph = 2;
@@ -952,7 +952,7 @@ void ugal_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
 	  cout << " _min_hop " << _min_hop << " _min_queucnt: " <<_min_queucnt << " _nonmin_hop: " << _nonmin_hop << " _nonmin_queucnt :" << _nonmin_queucnt <<  endl;
 	}
 
-	if (_min_hop * _min_queucnt   <= _nonmin_hop * _nonmin_queucnt +threshold) {
+	if ((long long)_min_hop * _min_queucnt <= (long long)_nonmin_hop * _nonmin_queucnt + threshold) {
 
 	  if (debug) cout << " Route MINIMALLY " << endl;
 	  f->ph = 2;
@@ -1128,7 +1128,7 @@ void ugal_pni_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
 	  cout << " _min_hop " << _min_hop << " _min_queucnt: " <<_min_queucnt << " _nonmin_hop: " << _nonmin_hop << " _nonmin_queucnt :" << _nonmin_queucnt <<  endl;
 	}
 
-	if (_min_hop * _min_queucnt   <= _nonmin_hop * _nonmin_queucnt +threshold) {
+	if ((long long)_min_hop * _min_queucnt <= (long long)_nonmin_hop * _nonmin_queucnt + threshold) {
 
 	  if (debug) cout << " Route MINIMALLY " << endl;
 	  f->ph = 2;
-- 
2.43.0


From feedd35461d29ee48cb5a9b0fcc8ef84bb3dae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 10/53] fix: offer min_adapt_mesh's escape channel on the
 packet type's own VC

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..8210196 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
-- 
2.43.0


From 292bb3546937caf7032e7dd5f93bad6d63966131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 11/53] fix: keep Valiant packets on the VCs of their phase and
 ring

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 8210196..0aa8874 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1356,8 +1356,8 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
 
     out_port = dor_next_mesh( r->GetID( ), (f->ph == 0) ? f->intm : f->dest );
 
-    // at the destination router, we don't need to separate VCs by phase
-    if(r->GetID() != f->dest) {
+    // when ejecting, we don't need to separate VCs by phase
+    if((f->ph == 0) || (r->GetID() != f->dest)) {
 
       //each class must have at least 2 vcs assigned or else valiant valiant will deadlock
       int const available_vcs = (vcEnd - vcBegin + 1) / 2;
@@ -1422,14 +1422,14 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
+    int ring_part = f->ph & 1; // kept while moving along the same ring
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when ejecting, we don't need to separate VCs by phase, etc.
+    if((phase == 0) || (r->GetID() != f->dest)) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
@@ -1510,19 +1510,19 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       phase = f->ph / 2;
     }
 
-    if ( ( f->ph == 0 ) && ( r->GetID( ) == f->intm ) ) {
-      f->ph = 1; // Go to phase 1
+    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
+      phase = 1; // Go to phase 1
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
-    dor_next_torus( r->GetID( ), (f->ph == 0) ? f->intm : f->dest, in_channel,
+    int ring_part = f->ph & 1; // kept while moving along the same ring
+    dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when ejecting, we don't need to separate VCs by phase, etc.
+    if((phase == 0) || (r->GetID() != f->dest)) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
-- 
2.43.0


From 1cb83294a1af332ec0a77bc94aadfadd34c16e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 12/53] fix: size MaxSizeMatch's search state by outputs

---
 rad-sim/sim/noc/booksim/allocators/maxsize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
index ffa11b4..5b9ec0f 100644
--- a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
@@ -112,7 +112,7 @@ bool MaxSizeMatch::_ShortestAugmenting( )
     }
   }
 
-  _from.assign(_inputs, -1);
+  _from.assign(_outputs, -1);
 
   for ( int iter = 0; iter < _inputs; iter++ ) {
     nslen = 0;
-- 
2.43.0


From 0f5a08afc88255c79e076bd262310db557c2ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 13/53] fix: forget unaccepted SelAlloc grants between
 iterations

---
 rad-sim/sim/noc/booksim/allocators/selalloc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
index adf0c10..9ce66e0 100644
--- a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
@@ -59,9 +59,9 @@ void SelAlloc::Allocate( )
   int max_index;
   int max_pri;
 
-  vector<int> grants(_outputs, -1);
-
   for ( int iter = 0; iter < _iter; ++iter ) {
+    vector<int> grants(_outputs, -1);
+
     // Grant phase
 
     for( outer_iter = _out_occ.begin( ); 
-- 
2.43.0


From 9e11503e991c54a1ee223cd04c3f7a00d0081d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 14/53] fix: DRAMsim3 aborted when a rank in self-refresh was
 asked to wake up

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..b6cc22c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -70,6 +70,7 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::READ_PRECHARGE:
                 case CommandType::WRITE:
                 case CommandType::WRITE_PRECHARGE:
+                case CommandType::SREF_EXIT:
                     required_type = CommandType::SREF_EXIT;
                     break;
                 default:
-- 
2.43.0


From 0bb7b7498f55d07bc92f8db7d89093d658b60fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 15/53] fix: DRAMsim3 livelocked when the write buffer was full
 and its next write waited for a queued read

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..61d6b1e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -215,6 +215,19 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    // move the reads on: a full write buffer starts draining
+                    // again in the next cycle and would starve this read
+                    for (auto rd = read_queue_.begin(); rd != read_queue_.end();
+                         rd++) {
+                        auto rd_cmd = TransToCommand(*rd);
+                        if (cmd_queue_.WillAcceptCommand(rd_cmd.Rank(),
+                                                         rd_cmd.Bankgroup(),
+                                                         rd_cmd.Bank())) {
+                            cmd_queue_.AddCommand(rd_cmd);
+                            read_queue_.erase(rd);
+                            break;
+                        }
+                    }
                     break;
                 }
                 write_draining_ -= 1;
-- 
2.43.0


From 06431522798559c94911dab5fcb67f0d8a6cabb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 16/53] fix: DRAMsim3 did not apply tRFCb to the bank it
 refreshed

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..6c31b2e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -222,7 +222,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
-- 
2.43.0


From 5132ceb0d66d45a8fbc81b4588cdccfdba32391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 17/53] fix: DRAMsim3 spaced the refreshes of different banks
 by the rank-level tREFI, so per-bank refresh fell behind

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 6c31b2e..ccc48db 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -50,9 +50,6 @@ Timing::Timing(const Config& config)
     int activate_to_refresh =
         config.tRC;  // need to precharge before ref, so it's tRC
 
-    // TODO: deal with different refresh rate
-    int refresh_to_refresh =
-        config.tREFI;  // refresh intervals (per rank level)
     int refresh_to_activate = config.tRFC;  // tRFC is defined as ref to act
     int refresh_to_activate_bank = config.tRFCb;
 
@@ -232,13 +229,13 @@ Timing::Timing(const Config& config)
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     // REFRESH, SREF_ENTER and SREF_EXIT are isued to the entire
-- 
2.43.0


From 1f2f59400ec4a777620708987dfe9237552ded1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 18/53] fix: DRAMsim3 refreshed a bank sooner than tRC after
 its activation when it closed by auto-precharge

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index ccc48db..72b0ed8 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -185,6 +185,10 @@ Timing::Timing(const Config& config)
             {CommandType::READ_PRECHARGE, activate_to_read},
             {CommandType::WRITE_PRECHARGE, activate_to_write},
             {CommandType::PRECHARGE, activate_to_precharge},
+            // an auto-precharge can come sooner than tRAS
+            {CommandType::REFRESH, activate_to_refresh},
+            {CommandType::REFRESH_BANK, activate_to_refresh},
+            {CommandType::SREF_ENTER, activate_to_refresh},
         };
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
-- 
2.43.0


From 2e95ed56268e7bd113471be28467b56a6a286e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 19/53] fix: DRAMsim3's simultaneous refresh policy refreshed
 only the first rank

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 8a2975293684ade367b6637242716dbd10470c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 20/53] fix: DRAMsim3's per-bank refresh served each rank only
 every ranks-th tREFIb

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 4b9fa4b..7544072 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -12,7 +12,7 @@ Refresh::Refresh(const Config &config, ChannelState &channel_state)
     if (refresh_policy_ == RefreshPolicy::RANK_LEVEL_SIMULTANEOUS) {
         refresh_interval_ = config_.tREFI;
     } else if (refresh_policy_ == RefreshPolicy::BANK_LEVEL_STAGGERED) {
-        refresh_interval_ = config_.tREFIb;
+        refresh_interval_ = config_.tREFIb / config_.ranks;
     } else {  // default refresh scheme: RANK STAGGERED
         refresh_interval_ = config_.tREFI / config_.ranks;
     }
-- 
2.43.0


From 3e3fcf28574e233af453e8b8b5e16e588d59cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 21/53] fix: DRAMsim3 blocked the other banks for the all-bank
 tRFC after a per-bank refresh, which starves them when tRFC exceeds tREFIb

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 72b0ed8..1bbab51 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -232,13 +232,13 @@ Timing::Timing(const Config& config)
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
+            {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
+            {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
-- 
2.43.0


From 004f85476cbcf4626c465419a50935210f8abb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 22/53] fix: DRAMsim3 never put a rank back into self-refresh
 after its first request

---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 11 +++++++++++
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index f121d28..9c982a2 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -200,6 +200,7 @@ void CommandQueue::EraseRWCommand(const Command& cmd) {
     for (auto cmd_it = queue.begin(); cmd_it != queue.end(); cmd_it++) {
         if (cmd.hex_addr == cmd_it->hex_addr && cmd.cmd_type == cmd_it->cmd_type) {
             queue.erase(cmd_it);
+            rank_q_empty[cmd.Rank()] = RankQueuesEmpty(cmd.Rank());
             return;
         }
     }
@@ -207,6 +208,16 @@ void CommandQueue::EraseRWCommand(const Command& cmd) {
     exit(1);
 }
 
+bool CommandQueue::RankQueuesEmpty(int rank) const {
+    int per_rank = num_queues_ / config_.ranks;
+    for (int i = rank * per_rank; i < (rank + 1) * per_rank; i++) {
+        if (!queues_[i].empty()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 int CommandQueue::QueueUsage() const {
     int usage = 0;
     for (auto i = queues_.begin(); i != queues_.end(); i++) {
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 5bc8d3f..5aacedd 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -38,6 +38,7 @@ class CommandQueue {
     CMDQueue& GetNextQueue();
     void GetRefQIndices(const Command& ref);
     void EraseRWCommand(const Command& cmd);
+    bool RankQueuesEmpty(int rank) const;
     Command PrepRefCmd(const CMDIterator& it, const Command& ref) const;
 
     QueueStructure queue_structure_;
-- 
2.43.0


From 84d99545e49773dbad5aad4d326d1634a3f739a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 23/53] fix: DRAMsim3 lost a read or write that HBM dual issue
 picked but did not issue

---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 3 ---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h  | 2 +-
 rad-sim/sim/dram/DRAMsim3/src/controller.cc    | 5 +++++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index 9c982a2..b46f61f 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -44,9 +44,6 @@ Command CommandQueue::GetCommandToIssue() {
         }
         auto cmd = GetFirstReadyInQueue(queue);
         if (cmd.IsValid()) {
-            if (cmd.IsReadWrite()) {
-                EraseRWCommand(cmd);
-            }
             return cmd;
         }
     }
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 5aacedd..0ae5728 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -19,6 +19,7 @@ class CommandQueue {
     CommandQueue(int channel_id, const Config& config,
                  const ChannelState& channel_state, SimpleStats& simple_stats);
     Command GetCommandToIssue();
+    void EraseRWCommand(const Command& cmd);
     Command FinishRefresh();
     void ClockTick() { clk_ += 1; };
     bool WillAcceptCommand(int rank, int bankgroup, int bank) const;
@@ -37,7 +38,6 @@ class CommandQueue {
     CMDQueue& GetQueue(int rank, int bankgroup, int bank);
     CMDQueue& GetNextQueue();
     void GetRefQIndices(const Command& ref);
-    void EraseRWCommand(const Command& cmd);
     bool RankQueuesEmpty(int rank) const;
     Command PrepRefCmd(const CMDIterator& it, const Command& ref) const;
 
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index 61d6b1e..e0fbe8e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -247,6 +247,11 @@ void Controller::IssueCommand(const Command &cmd) {
     // add channel in, only needed by thermal module
     thermal_calc_.UpdateCMDPower(channel_id_, cmd, clk_);
 #endif  // THERMAL
+    // only an issued command leaves the queue: the second command of a dual
+    // issue cycle may have to wait
+    if (cmd.IsReadWrite()) {
+        cmd_queue_.EraseRWCommand(cmd);
+    }
     // if read/write, update pending queue and return queue
     if (cmd.IsRead()) {
         auto num_reads = pending_rd_q_.count(cmd.hex_addr);
-- 
2.43.0


From b22b3cdf286d27a4d1ab2c298ae7cfd9ae0b6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 24/53] fix: DRAMsim3 aborted when a rank entered self-refresh
 with a refresh of it waiting

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index e0fbe8e..484724f 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -126,6 +126,7 @@ void Controller::ClockTick() {
                 }
             } else {
                 if (cmd_queue_.rank_q_empty[i] &&
+                    !channel_state_.IsRefreshWaiting() &&
                     channel_state_.rank_idle_cycles[i] >=
                         config_.sref_threshold) {
                     auto addr = Address();
-- 
2.43.0


From 22f59ed6a567167fa89ff91f8198ea281dcf8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 25/53] fix: DRAMsim3 always reported zero write buffer hits

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index 484724f..d90f6bc 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -179,6 +179,7 @@ bool Controller::AddTransaction(Transaction trans) {
     } else {  // read
         // if in write buffer, use the write buffer value
         if (pending_wr_q_.count(trans.addr) > 0) {
+            simple_stats_.Increment("num_write_buf_hits");
             trans.complete_cycle = clk_ + 1;
             return_queue_.push_back(trans);
             return true;
-- 
2.43.0


From e4c8889a7f3fe8f25c4b21a09adf5b65f7f8493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 26/53] fix: memory controller looked at the front of an empty
 queue of outstanding reads

---
 rad-sim/sim/dram/mem_controller.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 3b1222b..3508780 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -198,6 +198,8 @@ void mem_controller::MemReadCallback(uint64_t addr) {
 
     do {
       flag = false;
+      if (_outstanding_read_requests[ch_id].empty())
+        break;
       uint64_t front_addr =
           std::get<0>(_outstanding_read_requests[ch_id].front());
       if (_out_of_order_read_requests[ch_id].find(front_addr) !=
-- 
2.43.0


From 7c4bae456add57ef3be48adb16be7eb332c4aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 27/53] fix: memory controller's write responses carried the
 user field of another write

---
 rad-sim/sim/dram/mem_controller.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 3508780..8d00d8c 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -452,6 +452,9 @@ void mem_controller::Tick() {
                                        0);
       mem_channels[ch_id].rvalid.write(_output_read_responses[ch_id].size() >
                                        0);
+      if (_output_write_responses[ch_id].size() > 0) {
+        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
+      }
       if (_output_read_responses[ch_id].size() > 0) {
         mem_channels[ch_id].rdata.write(
             std::get<1>(_output_read_responses[ch_id].front()));
@@ -600,10 +603,6 @@ void mem_controller::Assign() {
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
                                         read_output_queue_ok);
-
-      if (_output_write_responses[ch_id].size() > 0) {
-        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
-      }
     }
   }
 }
-- 
2.43.0


From a8c836c4525784a9acaf6fc23665e3ce7be57ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 28/53] fix: memory controller performed write data whose
 address had not arrived

---
 rad-sim/sim/dram/mem_controller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 8d00d8c..f0d25d7 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -514,7 +514,8 @@ void mem_controller::MemTick() {
                 std::make_tuple(read_addr, resp_addr, last));
           }
           // Issue write request to DRAMsim
-        } else if (_write_data_queue[ch_id].size() > 0) {
+        } else if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -538,7 +539,8 @@ void mem_controller::MemTick() {
     } else {
       for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
         // Issue write request to DRAMsim
-        if (_write_data_queue[ch_id].size() > 0) {
+        if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
-- 
2.43.0


From be6e473349168152992fea7761414a21e41ed038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 29/53] fix: memory controller capacity overflowed 32 bits

---
 rad-sim/sim/dram/mem_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index f0d25d7..9b44a05 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -103,7 +103,7 @@ mem_controller::mem_controller(const sc_module_name &name, unsigned int dram_id,
   _num_rows = _dramsim->GetRows();
   _num_word_cols = 1 << ((int)log2(_dramsim->GetCols()) -
                          (int)log2(_dramsim->GetBurstLength()));
-  _total_num_addressable_words = _num_channels * _num_ranks * _num_bank_groups *
+  _total_num_addressable_words = (uint64_t)_num_channels * _num_ranks * _num_bank_groups *
                                  _num_banks_per_group * _num_rows *
                                  _num_word_cols;
   _total_num_addressable_words_M = _total_num_addressable_words / 1024 / 1024;
-- 
2.43.0


From f4a5f8d382515e3d37cd32d11c2781a321293a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 30/53] fix: config.py applied configurations to RADs by
 position instead of by cluster_configs

---
 rad-sim/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..d935732 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -98,7 +98,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
@@ -332,7 +332,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
@@ -397,7 +397,7 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        design_name = radsim_knobs[config_names.index(cluster_knobs["cluster_configs"][i])]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From 97385c9c898b93ada88109c26aeb93bf801244f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 31/53] fix: config.py failed on every anynet NoC

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index d935732..a4bfd92 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -146,7 +146,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_header_params["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From 002b9997bbb40172417acf8d78d46e3d73517d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 32/53] fix: config.py turned most inter-RAD bandwidths into
 full bandwidth

---
 rad-sim/config.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index a4bfd92..bd58517 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -6,6 +6,7 @@ import shutil
 from itertools import repeat
 from copy import deepcopy
 from math import ceil
+from fractions import Fraction
 
 def parse_config_file(config_filename, booksim_params, radsim_header_params, radsim_knobs, cluster_knobs):
     with open(config_filename, 'r') as yaml_config:
@@ -313,18 +314,10 @@ def generate_radsim_params_header(radsim_header_params):
 
 def get_fraction(input_val):
     '''Returns tuple, where first value is numerator and second is denom'''
-    print(input_val)
-    remainder = float('{:,.3f}'.format(input_val % 1)) #choosing to keep only 3 dec places. need to do this bc python stores floats as binary fraction
-    if remainder == 0: #whole number
-        return (int(input_val), 1)
-    else:
-        count = 0
-        while (remainder % 1 != 0):
-            remainder *= 10
-            count += 1
-        b = count * 10
-        a = (( input_val-(input_val%1) ) * b) + remainder
-        return (int(a), b)
+    fraction = Fraction(input_val).limit_denominator(1000)
+    if fraction == 0 and input_val > 0: #too slow for three decimal places
+        return (1, ceil(1 / input_val))
+    return (fraction.numerator, fraction.denominator)
 
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
-- 
2.43.0


From bf4577fb3d757045aef76c1810f05ffdcec11d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 33/53] fix: config.py took the configuration file of a random
 one of several designs

---
 rad-sim/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index bd58517..9e223cb 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -470,7 +470,8 @@ if __name__ == "__main__":
             print("Cannot find design directory under rad-sim/example-designs/")
             exit(1)
 
-    # Point to YAML configuration file
+    # Point to YAML configuration file of the first design named
+    design_name = sys.argv[1]
     config_filename = f"{os.getcwd()}/example-designs/{design_name}/config.yml"
     config_names = []
 
-- 
2.43.0


From bbb8b7da0bc9d56f8b2a2e94ec66f9c7c944a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 34/53] fix: config.py failed on every configuration with
 several NoCs

---
 rad-sim/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 9e223cb..2011fd8 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -101,6 +101,11 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
             booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
+            # One node count per NoC
+            for num_nodes in (radsim_header_params["noc_num_nodes"], radsim_knobs[curr_config_num]["noc_num_nodes"]):
+                while len(num_nodes) <= noc_idx:
+                    num_nodes.append(0)
+
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
             noc_topology = booksim_params[curr_config_num]["noc_topology"][noc_idx]
-- 
2.43.0


From 6457afca917830d39d355726fc83cb2dde27a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 35/53] fix: config.py wrote knobs of more RADs than the
 simulation has, which the parser stored out of bounds

---
 rad-sim/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 2011fd8..7b6487d 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -93,8 +93,7 @@ def print_config(booksim_params, radsim_header_params, radsim_knobs):
 
 
 def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_knobs, cluster_knobs):
-    num_configs = len(cluster_knobs["cluster_configs"])
-    for config_idx in range(num_configs): #curr_config_num in range(num_configs):
+    for config_idx in range(cluster_knobs["num_rads"]): #curr_config_num in range(num_configs):
         curr_config_name = cluster_knobs["cluster_configs"][config_idx] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
@@ -327,7 +326,7 @@ def get_fraction(input_val):
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     radsim_config_file = open(radsim_header_params["radsim_root_dir"] + "/sim/radsim_knobs", "w")
-    for config_id in range(len(cluster_knobs["cluster_configs"])):
+    for config_id in range(cluster_knobs["num_rads"]):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
         for param in radsim_knobs[curr_config_num]:
-- 
2.43.0


From 7fc2640d713c861ae994776de30d8c6c9f49dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 36/53] fix: AXI-MM address packets did not fit when the data
 width is below 77 bits

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 7b6487d..2d3c2a3 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -295,7 +295,7 @@ def generate_radsim_params_header(radsim_header_params):
     radsim_params_header_file.write("#define DEST_REMOTE_NODE(t) t.range(2 * AXIS_DEST_FIELDW - 1, AXIS_DEST_FIELDW)\n") # TO-DO-MR: Extract remote destination node from destination bitvector
     radsim_params_header_file.write("#define DEST_RAD(t) t.range(3 * AXIS_DEST_FIELDW - 1, 2 * AXIS_DEST_FIELDW)\n") # TO-DO-MR: Extract destination RAD from destination bitvector
     radsim_params_header_file.write("#define AXIS_TRANSACTION_WIDTH (AXIS_MAX_DATAW + AXIS_STRBW + AXIS_KEEPW + AXIS_IDW + AXIS_DESTW + AXIS_USERW + 1)\n")
-    radsim_params_header_file.write("#define AXI4_PAYLOADW (AXI4_MAX_DATAW + AXI4_RESPW + AXI4_USERW + 1)\n")
+    radsim_params_header_file.write("#define AXI4_PAYLOADW ((AXI4_MAX_DATAW > AXI4_ADDRW + AXI4_CTRLW ? AXI4_MAX_DATAW : AXI4_ADDRW + AXI4_CTRLW) + AXI4_RESPW + AXI4_USERW + 1)\n")
     radsim_params_header_file.write("#define AXI4_LAST(t)  t.range(0, 0)\n")
     radsim_params_header_file.write("#define AXI4_USER(t)  t.range(AXI4_USERW, 1)\n")
     radsim_params_header_file.write("#define AXI4_RESP(t)  t.range(AXI4_RESPW + AXI4_USERW, AXI4_USERW + 1)\n")
-- 
2.43.0


From 8c42fa52765a8e22f148160b5b9973fcf7f8a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 37/53] fix: RAD IDs did not fit the destination fields when
 there are more RADs than NoC nodes

---
 rad-sim/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 2d3c2a3..1c2a8d0 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -246,6 +246,7 @@ def generate_radsim_params_header(radsim_header_params):
     for n in radsim_header_params["noc_num_nodes"]:
         if n > max_num_nodes:
             max_num_nodes = n
+    max_num_nodes = max(max_num_nodes, cluster_knobs["num_rads"]) # a destination field also holds a RAD ID
     max_destination_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
     max_destination_field_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) #Bitwidth of a single field of the destination described above.
     radsim_params_header_file.write("#define NOC_LINKS_DEST_WIDTH      " + str(max_destination_bitwidth) + "\n")
-- 
2.43.0


From 292cfe01538c7e7db93c42a8b078602aa2e11064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 38/53] fix: AXI-MM base addresses did not match the node bits
 the adapters route by when NoCs differ in size, RADs outnumber nodes, or
 there are several NoCs

---
 rad-sim/sim/design_context.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..141217f 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -72,18 +72,10 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
 
 uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
   int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
   int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
-  uint64_t base_addr = noc_id << node_bits;
-  base_addr += node_id;
-  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
+  // The node ID is in the address bits that the AXI-MM adapters route by
+  uint64_t base_addr = ((uint64_t)node_id << noc_bits) + noc_id;
+  base_addr <<= (AXI4_ADDRW - AXI4_NODE_ADDRW - noc_bits);
   return base_addr;
 }
 
-- 
2.43.0


From 16f4b88a6e36a62eac2cb7d30b577070d5e6358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 39/53] fix: give each NoC of a RAD its own routing globals

The routing functions read the network's dimensions, VC ranges and anynet
routing table from global variables which the NoC built last overwrote, so
that with NoCs of different sizes flits were routed out of the mesh.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp     |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp      |  1 +
 rad-sim/sim/noc/axis_slave_adapter.cpp       |  1 +
 rad-sim/sim/noc/booksim/networks/network.cpp | 19 +++++++++++++++++++
 rad-sim/sim/noc/booksim/networks/network.hpp |  5 +++++
 5 files changed, 27 insertions(+)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index db2ccaa..8763a82 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -622,6 +622,7 @@ void aximm_master_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->SelectForRouting();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 857d41c..cdd84d3 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -431,6 +431,7 @@ void aximm_slave_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->SelectForRouting();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 7055e41..1c330e7 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -256,6 +256,7 @@ void axis_slave_adapter::InputInjection() {
           const Router *router = inject->GetSink();
           assert(router);
           int in_channel = inject->GetSinkPort();
+          _noc->SelectForRouting();
           _routing_func(router, booksim_flit, in_channel,
                         &booksim_flit->la_route_set, false);
         }
diff --git a/rad-sim/sim/noc/booksim/networks/network.cpp b/rad-sim/sim/noc/booksim/networks/network.cpp
index 14dac00..fb771d2 100644
--- a/rad-sim/sim/noc/booksim/networks/network.cpp
+++ b/rad-sim/sim/noc/booksim/networks/network.cpp
@@ -40,6 +40,13 @@
 #include "fattree.hpp"
 #include "anynet.hpp"
 #include "dragonfly.hpp"
+#include "routefunc.hpp"
+
+// Global variables that the routing functions read
+extern map<int, int> *global_routing_table;
+static int *const routing_globals[] = {
+    &gK, &gN, &gC, &gNodes, &gNumVCs, &gReadReqBeginVC, &gReadReqEndVC, &gWriteReqBeginVC, &gWriteReqEndVC,
+    &gWriteDataBeginVC, &gWriteDataEndVC, &gReadReplyBeginVC, &gReadReplyEndVC, &gWriteReplyBeginVC, &gWriteReplyEndVC};
 
 // Default constructor for a network.
 Network::Network( const Configuration &config, const string & name ) :
@@ -116,9 +123,20 @@ Network * Network::New(const Configuration & config, const string & name)
     if ( n && ( config.GetInt( "link_failures" ) > 0 ) ) {
         n->InsertRandomFaults( config );
     }
+    if ( n ) {
+        for ( int *const g : routing_globals ) n->_routing_globals.push_back( *g );
+        n->_routing_table = global_routing_table;
+    }
     return n;
 }
 
+// Makes the routing functions work on this network. Needed before calling them if there are several networks.
+void Network::SelectForRouting( ) const
+{
+    for ( size_t i = 0; i < _routing_globals.size(); i++ ) *routing_globals[i] = _routing_globals[i];
+    global_routing_table = _routing_table;
+}
+
 // Allocates memory for all the Network datastructures.
 void Network::_Alloc( )
 {
@@ -180,6 +198,7 @@ void Network::ReadInputs( )
 // Calls Evaluate() for each TimedModule in the Network.
 void Network::Evaluate( )
 {
+    SelectForRouting( );
     for(auto _timed_module : _timed_modules) {
         _timed_module->Evaluate( );
     }
diff --git a/rad-sim/sim/noc/booksim/networks/network.hpp b/rad-sim/sim/noc/booksim/networks/network.hpp
index b8cd3c8..15f92d1 100644
--- a/rad-sim/sim/noc/booksim/networks/network.hpp
+++ b/rad-sim/sim/noc/booksim/networks/network.hpp
@@ -76,6 +76,10 @@ protected:
     // All Network channels (injection, ejection, links)
     deque<TimedModule *> _timed_modules;
 
+    // Values of the global variables that the routing functions read for this network
+    vector<int> _routing_globals;
+    map<int, int> *_routing_table = nullptr;
+
     virtual void _ComputeSize( const Configuration &config ) = 0;
     virtual void _BuildNet( const Configuration &config ) = 0;
 
@@ -102,6 +106,7 @@ public:
 
     virtual void ReadInputs( );
     virtual void Evaluate( );
+    void SelectForRouting( ) const;
     virtual void WriteOutputs( );
     virtual void Trace( ostream & os, double sim_time );
 
-- 
2.43.0


From f4575ecbbc631bf261c545cc5e3bb55cb67719ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 40/53] fix: exact simulation cycles for periods that binary
 floating point or the time resolution rounds

---
 rad-sim/sim/radsim_utils.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rad-sim/sim/radsim_utils.cpp b/rad-sim/sim/radsim_utils.cpp
index 497ed21..c6bfa11 100644
--- a/rad-sim/sim/radsim_utils.cpp
+++ b/rad-sim/sim/radsim_utils.cpp
@@ -1,16 +1,14 @@
 #include <radsim_utils.hpp>
 
 int GetSimulationCycle(double period) {
-  sc_time t = sc_time_stamp();
-  int cycle = (int)ceil(t.value() / period / 1000);
-  return cycle;
+  // In units of the time resolution, to which the clock's period is rounded too
+  sc_dt::uint64 t = sc_time_stamp().value();
+  sc_dt::uint64 p = sc_time(period, SC_NS).value();
+  return (int)((t + p - 1) / p);
 }
 
 int GetSimulationCycle() {
-  double period = radsim_config.GetDoubleKnobShared("sim_driver_period");
-  sc_time t = sc_time_stamp();
-  int cycle = (int)ceil(t.value() / period / 1000);
-  return cycle;
+  return GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
 }
 
 int GetSimTime() { 
-- 
2.43.0


From 5ae5e9ee3ee2fbe09f80e1a0e071dd5d6f62487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 41/53] fix: per-RAD traffic flows

DumpTrafficFlows mixed the transactions of all RADs, and transactions to
another RAD were recorded for an unrelated node (which crashed the dump if
no module is there) instead of the portal they are routed to.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 6 +++---
 rad-sim/sim/noc/axis_slave_adapter.cpp   | 9 ++++++---
 rad-sim/sim/radsim_telemetry.cpp         | 5 ++++-
 rad-sim/sim/radsim_telemetry.hpp         | 4 +++-
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 8763a82..2464c2f 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -445,7 +445,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     } else if (aximm_interface.bready.read() && aximm_interface.bvalid.read()) {
       // Capture the values at the AXI B port
@@ -467,7 +467,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     }
     wait();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index cdd84d3..0d3d2d2 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -191,7 +191,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       // std::cout << this->name() << ": Registered AR transaction (user = "
       //           << aximm_interface.aruser.read().to_uint64() << ")!"
@@ -224,7 +224,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered AW transaction (user = "
                 << aximm_interface.awuser.read().to_uint64() << ")!"
@@ -250,7 +250,7 @@ void aximm_slave_adapter::InputInterface() {
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, (int)_last_awdest.read().to_uint(), AXI_TYPE_W,
-          _interface_dataw, _network_id);
+          _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 1c330e7..7f2fd68 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -124,13 +124,16 @@ void axis_slave_adapter::InputInterface() {
         input_transaction.tstrb = axis_interfaces[interface_id].tstrb.read();
         input_transaction.tuser = axis_interfaces[interface_id].tuser.read();
         
+        // On this RAD's NoC, a transaction to another RAD goes to the portal
+        int dest_node = (DEST_RAD(input_transaction.tdest) == _rad_id) ?
+            (int)DEST_LOCAL_NODE(input_transaction.tdest).to_uint() : (int)_portal_id;
+
         // Log transaction initiation to get a unique packet ID
         int unique_sim_packet_id =
             NoCTransactionTelemetry::RecordTransactionInitiation(
-                _node_id,
-                GetInputDestinationNode(axis_interfaces[interface_id].tdest.read()),
+                _node_id, dest_node,
                 _interface_types[interface_id], _interface_dataw[interface_id],
-                _network_id);
+                _network_id, _rad_id);
 
         // Register the packet ID, transaction type, and which interface it came from
         input_transaction.transaction_id = unique_sim_packet_id;
diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index a8a5c5e..ef1d85e 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -7,13 +7,14 @@ NoCTransactionTelemetry::NoCTransactionTelemetry() {}
 NoCTransactionTelemetry::~NoCTransactionTelemetry() {}
 
 // Records the initiation timestamp of a transaction and returns its unique global ID
-int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id) {
+int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id, int rad_id) {
   NoCTransactionTrace entry;
   entry.src_node = src;
   entry.dest_node = ((1 << AXIS_DEST_FIELDW) - 1) & dest; //extract only local NoC node. ignore any remote NoC node set for inter-rad network.
   entry.transaction_type = type;
   entry.dataw = dataw;
   entry.network_id = network_id;
+  entry.rad_id = rad_id;
   entry.t_init = sc_time_stamp().to_double() / 1000;
   global_transaction_id++;
   trace_bookkeeping[global_transaction_id] = entry;
@@ -75,6 +76,8 @@ std::vector<double> NoCTransactionTelemetry::DumpTrafficFlows(const std::string&
     traffic_num_hops[noc_id].resize(num_nodes);
   }
   for (auto& entry : trace_bookkeeping) {
+    // Only the traffic of this RAD's NoCs
+    if (entry.second.rad_id != (int) rad_id) continue;
     unsigned int noc_id = (unsigned int) entry.second.network_id;
     unsigned int src = (unsigned int) entry.second.src_node;
     unsigned int dest = (unsigned int) entry.second.dest_node;
diff --git a/rad-sim/sim/radsim_telemetry.hpp b/rad-sim/sim/radsim_telemetry.hpp
index 3d4638f..e521d09 100644
--- a/rad-sim/sim/radsim_telemetry.hpp
+++ b/rad-sim/sim/radsim_telemetry.hpp
@@ -18,6 +18,7 @@ struct NoCTransactionTrace {
   int transaction_type;     // Transaction type
   int dataw;                // Data width of the transaction in bits
   int network_id;           // NoC ID of the transaction
+  int rad_id;               // RAD on whose NoC the transaction is
   double t_init;            // Time at which transaction is initiated
   double t_packet;          // Time at which transaction is packetized
   double t_inject;          // Time at which head flit of transaction is injected into the NoC
@@ -33,6 +34,7 @@ struct NoCTransactionTrace {
         transaction_type(0),
         dataw(0),
         network_id(0),
+        rad_id(0),
         t_init(0.0),
         t_packet(0.0),
         t_inject(0.0),
@@ -50,7 +52,7 @@ class NoCTransactionTelemetry {
 
   NoCTransactionTelemetry();
   ~NoCTransactionTelemetry();
-  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id);
+  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id, int rad_id);
   static void RecordTransactionTailPacketization(int id);
   static void RecordTransactionHeadInjection(int id);
   static void RecordTransactionTailEjection(int id);
-- 
2.43.0


From 2eb49b9ffe2fceddbcc34d86a05fa58276d1a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 42/53] fix: an mlp MVM drops tvalid when its output FIFO
 empties after an all-zero vector

---
 rad-sim/example-designs/mlp/modules/mvm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp/modules/mvm.cpp b/rad-sim/example-designs/mlp/modules/mvm.cpp
index c412915..3565ec2 100644
--- a/rad-sim/example-designs/mlp/modules/mvm.cpp
+++ b/rad-sim/example-designs/mlp/modules/mvm.cpp
@@ -182,7 +182,8 @@ mvm::mvm(const sc_module_name &name, unsigned int id_mvm, unsigned int id_layer,
             << dl_fifo_rdata_signal << dm_fifo_rdata_signal
             << dest_layer_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
             << dest_mvm_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
-            << dl_fifo_rdata_signal << dm_fifo_rdata_signal;
+            << dl_fifo_rdata_signal << dm_fifo_rdata_signal
+            << ofifo_empty_signal;
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 
-- 
2.43.0


From 930545a2fcdf8108d8117023ea1e9fe13dc1b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 43/53] fix: dlrm's embedding lookup issues each accepted read
 once

---
 .../dlrm/modules/embedding_lookup.cpp         | 36 +++++++++----------
 .../dlrm_two_rad/modules/embedding_lookup.cpp | 36 +++++++++----------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
index a57070e..3e20ec4 100644
--- a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
@@ -115,6 +115,24 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -147,24 +165,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
index 4f678fa..aa5c619 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
@@ -116,6 +116,24 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -148,24 +166,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
-- 
2.43.0


From 2166511a69b890d35a9ac42271124e3eb2b69287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 44/53] fix: dlrm drivers compare every element of an output

---
 rad-sim/example-designs/dlrm/dlrm_driver.cpp         | 2 +-
 rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/dlrm_driver.cpp b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
diff --git a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
-- 
2.43.0


From ee69b9581a80e4c692853c1f0d1e59854df1fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 45/53] fix: mult reports a wrong product as a design failure

---
 rad-sim/example-designs/mult/mult_driver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/mult/mult_driver.cpp b/rad-sim/example-designs/mult/mult_driver.cpp
index 2ed5dfa..366ac59 100644
--- a/rad-sim/example-designs/mult/mult_driver.cpp
+++ b/rad-sim/example-designs/mult/mult_driver.cpp
@@ -64,8 +64,10 @@ void mult_driver::sink() {
   std::cout << "Received " << response.read().to_uint64() << " product from the multiplier!" << std::endl;
   std::cout << "The actual product is " << actual_product << std::endl;
 
-  if (response.read() != actual_product) std::cout << "FAILURE - Output is not matching!" << std::endl;
-  else std::cout << "SUCCESS - Output is matching!" << std::endl;
+  if (response.read() != actual_product) {
+    std::cout << "FAILURE - Output is not matching!" << std::endl;
+    this->radsim_design->ReportDesignFailure();
+  } else std::cout << "SUCCESS - Output is matching!" << std::endl;
 
   end_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
   std::cout << "Simulation Cycles for Just Mult Portion = " << end_cycle - start_cycle << std::endl;
-- 
2.43.0


From 78715c24e9ef0a508d9d36aebe5cdbcd128aabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 46/53] fix: example systems deleted a clock pointer they never
 set

---
 rad-sim/example-designs/add/add_system.cpp           | 1 -
 rad-sim/example-designs/add/add_system.hpp           | 1 -
 rad-sim/example-designs/mlp/mlp_system.cpp           | 1 -
 rad-sim/example-designs/mlp/mlp_system.hpp           | 1 -
 rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp | 1 -
 rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp | 1 -
 rad-sim/example-designs/mult/mult_system.cpp         | 1 -
 rad-sim/example-designs/mult/mult_system.hpp         | 1 -
 8 files changed, 8 deletions(-)

diff --git a/rad-sim/example-designs/add/add_system.cpp b/rad-sim/example-designs/add/add_system.cpp
index 5a32d68..37b6855 100644
--- a/rad-sim/example-designs/add/add_system.cpp
+++ b/rad-sim/example-designs/add/add_system.cpp
@@ -30,5 +30,4 @@ add_system::add_system(const sc_module_name &name, sc_clock *driver_clk_sig, RAD
 add_system::~add_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/add/add_system.hpp b/rad-sim/example-designs/add/add_system.hpp
index ace1ecb..7a9a17c 100644
--- a/rad-sim/example-designs/add/add_system.hpp
+++ b/rad-sim/example-designs/add/add_system.hpp
@@ -17,7 +17,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   add_driver *driver_inst;
   add_top *dut_inst;
 
diff --git a/rad-sim/example-designs/mlp/mlp_system.cpp b/rad-sim/example-designs/mlp/mlp_system.cpp
index 66be09f..36fdd4e 100644
--- a/rad-sim/example-designs/mlp/mlp_system.cpp
+++ b/rad-sim/example-designs/mlp/mlp_system.cpp
@@ -56,5 +56,4 @@ mlp_system::mlp_system(const sc_module_name& name, sc_clock* driver_clk_sig, RAD
 mlp_system::~mlp_system() {
   delete mlp_driver_inst;
   delete mlp_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/mlp/mlp_system.hpp b/rad-sim/example-designs/mlp/mlp_system.hpp
index 50be2b0..a8cc21a 100644
--- a/rad-sim/example-designs/mlp/mlp_system.hpp
+++ b/rad-sim/example-designs/mlp/mlp_system.hpp
@@ -19,7 +19,6 @@ class mlp_system : public RADSimDesignSystem {
 
  public:
   sc_signal<bool> rst_sig;
-  sc_clock* sysclk;
   mlp_driver* mlp_driver_inst;
   mlp_top* mlp_inst;
 
diff --git a/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp b/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp
index 7776e50..b95999e 100644
--- a/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp
+++ b/rad-sim/example-designs/mlp_int8/mlp_int8_system.cpp
@@ -112,5 +112,4 @@ mlp_int8_system::mlp_int8_system(const sc_module_name& name, sc_clock* driver_cl
 mlp_int8_system::~mlp_int8_system() {
   delete mlp_driver_inst;
   delete mlp_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp b/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
index 469a4af..412d4cd 100644
--- a/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
+++ b/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
@@ -48,7 +48,6 @@ class mlp_int8_system : public RADSimDesignSystem {
 
  public:
   sc_signal<bool> rst_sig;
-  sc_clock* sysclk;
   mlp_driver* mlp_driver_inst;
   mlp_top* mlp_inst;
 
diff --git a/rad-sim/example-designs/mult/mult_system.cpp b/rad-sim/example-designs/mult/mult_system.cpp
index 0984d6e..7dfa141 100644
--- a/rad-sim/example-designs/mult/mult_system.cpp
+++ b/rad-sim/example-designs/mult/mult_system.cpp
@@ -31,5 +31,4 @@ mult_system::mult_system(const sc_module_name &name, sc_clock *driver_clk_sig, R
 mult_system::~mult_system() {
   delete driver_inst;
   delete dut_inst;
-  delete sysclk;
 }
\ No newline at end of file
diff --git a/rad-sim/example-designs/mult/mult_system.hpp b/rad-sim/example-designs/mult/mult_system.hpp
index f3026b3..1c2e998 100644
--- a/rad-sim/example-designs/mult/mult_system.hpp
+++ b/rad-sim/example-designs/mult/mult_system.hpp
@@ -17,7 +17,6 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
   mult_driver *driver_inst;
   mult_top *dut_inst;
 
-- 
2.43.0


From 1726f87a4043161dd569bccfc656d33a7ebf8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:47 +0000
Subject: [PATCH 47/53] fix: mlp_int8 loaders' FIFO names overflowed their
 buffers

---
 rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp   | 2 +-
 rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp b/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp
index 2643641..5744ef4 100644
--- a/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp
+++ b/rad-sim/example-designs/mlp_int8/modules/inst_loader.cpp
@@ -16,7 +16,7 @@ inst_loader::inst_loader(const sc_module_name &name, RADSimDesignContext* radsim
   this->radsim_design = radsim_design;
   module_name = name;
 
-  char fifo_name[25];
+  char fifo_name[50];
   std::string fifo_name_str;
 
   fifo_name_str = "inst_loader_inst_fifo";
diff --git a/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp b/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
index fa0fa15..43767bc 100644
--- a/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
+++ b/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
@@ -22,7 +22,7 @@ weight_loader::weight_loader(const sc_module_name &name, RADSimDesignContext* ra
   this->radsim_design = radsim_design;
   module_name = name;
 
-  char fifo_name[25];
+  char fifo_name[50];
   std::string fifo_name_str;
 
   fifo_name_str = "weight_loader_weight_fifo";
-- 
2.43.0


From c4c3522710d869043f25642a52b032c71796094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 48/53] fix: a simulation with several RADs ignored design
 failures of all but RAD 0

---
 rad-sim/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 1c2a8d0..c873ced 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -431,8 +431,9 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tsim_trace_probe.dump_traces();\n")
     main_cpp_file.write("\t(void)argc;\n")
     main_cpp_file.write("\t(void)argv;\n")
-    #device with RAD ID 0 is special as it is used to generate simulation exit codes
-    main_cpp_file.write("\treturn cluster->all_rads[0]->GetSimExitCode();\n")
+    #the simulation fails if the design of any RAD reports a failure
+    exit_codes = ["cluster->all_rads[" + str(i) + "]->GetSimExitCode()" for i in range(cluster_knobs["num_rads"])]
+    main_cpp_file.write("\treturn " + " | ".join(exit_codes) + ";\n")
     main_cpp_file.write("}\n")
 
 def prepare_build_dir(design_names):
-- 
2.43.0


From a45bc6d29c25b67e1a6389edc8cca45b444c9e20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 49/53] fix: generated RTL wrappers did not compile and copied
 instance names into 25 bytes

---
 rad-sim/scripts/generate_wrapper.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index f9cc9de..85e9095 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -24,12 +24,10 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
     with open(modules_folder / (design_name + ".cpp"), "w") as wrapper_cpp_file:
       wrapper_cpp_file.write("#include <" + design_name + ".hpp>\n\n")
 
-      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name) : RADSimModule(name) {\n")
+      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design) : RADSimModule(name, radsim_design) {\n")
 
-      wrapper_cpp_file.write("\t" + "char " + design_inst + "_name[25];\n")
       wrapper_cpp_file.write("\tstd::string " + design_inst + "_name_str = std::string(name);\n")
-      wrapper_cpp_file.write("\tstd::strcpy(" + design_inst + "_name, " + design_inst + "_name_str.c_str());\n\n")
-      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name};\n")
+      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name_str.c_str()};\n")
 
       # inputs and outputs connections
       if not design_name in mappings:
@@ -131,7 +129,7 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
           else:
               wrapper_hpp_file.write("\taximm_slave_port " + aximm_interface + ";\n")
 
-      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name);\n")
+      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design);\n")
       wrapper_hpp_file.write("\t~" + design_name + "();\n\n")
 
       wrapper_hpp_file.write("\tSC_HAS_PROCESS(" + design_name + ");\n")
-- 
2.43.0


From cfad60c3f9dd0f77d4a5ed9f09a188e7c314d7a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 50/53] fix: port mapping took parts of names for Verilog
 keywords

---
 rad-sim/scripts/verilog_parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index ee7bfc4..d360a76 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -20,15 +20,15 @@ verilog_tokens = {
     (r'//.*\n', None),
   ],
   'module': [
-    (r'parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
-    (r'(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
-    (r'endmodule', 'end_module', '#pop'),
+    (r'\bparameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
+    (r'\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
+    (r'\bendmodule\b', 'end_module', '#pop'),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
   ],
   'parameters': [
-    (r'\s*parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start'),
+    (r'\s*\bparameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start'),
     (r'(\w+)\s*=\s*\$*(\w+)\s*\(\w+', 'function_start', 'function'),
     (r'\s*(\w+)[^),;\/]*', 'param_item'),
     (r'\s*,', None),
@@ -43,7 +43,7 @@ verilog_tokens = {
     (r'\s*\)', None, '#pop'),
   ],
   'module_port': [
-    (r'\s*(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start'),
+    (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
-- 
2.43.0


From 8b253f07e337d099047364bbbb41e1c8ae186a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 51/53] fix: port mapping read the words of block comments in
 port lists as ports

---
 rad-sim/scripts/verilog_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index d360a76..e2c6e71 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -28,6 +28,7 @@ verilog_tokens = {
     (r'//.*\n', None),
   ],
   'parameters': [
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'\s*\bparameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start'),
     (r'(\w+)\s*=\s*\$*(\w+)\s*\(\w+', 'function_start', 'function'),
     (r'\s*(\w+)[^),;\/]*', 'param_item'),
@@ -36,6 +37,7 @@ verilog_tokens = {
     (r'[);]', None, '#pop'),
   ],
   'function': [
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'\s*\$*(\w+)\s*\(\w+', 'function_start', 'function'),
     (r'\s*(\w+)[^),;\/]*', 'function_arg'),
     (r'\s*,', None),
@@ -43,6 +45,7 @@ verilog_tokens = {
     (r'\s*\)', None, '#pop'),
   ],
   'module_port': [
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'\s*\b(input|inout|output)\b\s*(?:(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(?:(signed)\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
-- 
2.43.0


From 3064a6d3a24597c0236a1053f7e89151eee7ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 52/53] fix: port mapping gave ascending ranges negative widths

---
 rad-sim/scripts/generate_port_mappings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/generate_port_mappings.py b/rad-sim/scripts/generate_port_mappings.py
index 29ede96..52e6bce 100644
--- a/rad-sim/scripts/generate_port_mappings.py
+++ b/rad-sim/scripts/generate_port_mappings.py
@@ -32,11 +32,11 @@ def determine_port_width(port):
         if port_properties[0] == "reg" or port_properties[0] == "logic":
             return 1
         elif indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+            return abs(int(indices.groups()[0]) - int(indices.groups()[1])) + 1
     elif len(port_properties) == 2:
         indices = re.match(verilog_range_regex, port_properties[1])
         if indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+            return abs(int(indices.groups()[0]) - int(indices.groups()[1])) + 1
     
     return "?"
 
-- 
2.43.0


From 5832e9c36d64e11f84355804d5d00f6041b6da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:04 +0000
Subject: [PATCH 53/53] fix: activates of other banks put bank refreshes off
 for ever

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 1bbab51..738a308 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -194,12 +194,12 @@ Timing::Timing(const Config& config)
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_l},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_l}};
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_s},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_s}};
 
     // command PRECHARGE
     same_bank[static_cast<int>(CommandType::PRECHARGE)] =
-- 
2.43.0

