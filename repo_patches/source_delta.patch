From 46a65f02056f3ebf3047ea203ffd345b1a4af402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 01/25] fix: advance through the transition list when reading
 large TMs

tm_from_list() never moved past the first transition, so every cell of a TM
stored in list format was read back as a copy of A0.
---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..1dc3dea 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -108,6 +108,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
   for state_in in range(tm_list.num_states):
     for symbol_in in range(tm_list.num_symbols):
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
+      i += 3
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
   return Turing_Machine.tm_from_quintuples(quints,
-- 
2.43.0


From f798711464e80c8e70fb23e3f75a4d4ffb6d64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 02/25] fix: do not modify the TM while serializing it to list
 format

tm_to_list() overwrote symbol_out of the live undefined transitions, so a TM
behaved differently after being written.
---
 Code/IO/TM_Record.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 1dc3dea..111de38 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -97,8 +97,11 @@ def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> N
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        # -1 marks undefined. Don't modify `trans`, it belongs to `tm`.
+        symbol_out = -1
+      else:
+        symbol_out = trans.symbol_out
+      tm_list.ttable_list.append(symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
-- 
2.43.0


From a2cf01f95fd73c89968eae1cef8e9525b6d9b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:48 +0000
Subject: [PATCH 03/25] fix: choose a transition table format that can hold the
 TM, and read ttable_str

Packed format holds symbols 0..6, so an 8-symbol TM failed the assertion in
pack_trans_ints(); such TMs use the list format. The ttable_str branch of
read_tm() named a module that is not imported here.
---
 Code/IO/TM_Record.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 111de38..0463499 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -123,14 +123,15 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  # Packed format has 3 bits for (symbol + 1) and (state + 1).
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
-- 
2.43.0


From 14f0f760d3e70929bbbdf7d4727195f1c308924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:48 +0000
Subject: [PATCH 04/25] fix: store allow_no_halt with the TM

tm_enum() reads allow_no_halt from the record but nothing ever wrote it, so
continuing a Beeping Busy Beaver enumeration from a file dropped every machine
without a halt transition. Also drop the previous transition table, whatever
its format, when a record's TM is replaced.
---
 Code/IO/TM_Record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 0463499..32f3569 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -154,7 +154,9 @@ class TM_Record:
 
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
+    self.proto.tm.Clear()
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = self.tme.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From 07f46508a7d4b62a6a7fcbd829b006a523bc24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:48 +0000
Subject: [PATCH 05/25] fix: rewrite halting TMs in their own format

standardize_halt_trans() always used the packed format (which cannot hold
large TMs) and required the TM to have been parsed already.
---
 Code/IO/TM_Record.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 32f3569..c053fb5 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -181,10 +181,11 @@ class TM_Record:
     undefined transition. In that case, edit the transition to be a standard
     halt transition."""
     assert self.is_halting()
-    self.tme.set_halt_trans(
+    tm_enum = self.tm_enum()
+    tm_enum.set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    self.update_tm(tm_enum)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From eccd456a660b61ae34a3e511d08c454b9d2c2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:13 +0000
Subject: [PATCH 06/25] fix: sum series exactly

series_sum() squared the coefficient of cubic terms, and rounded each term
down separately when its coefficient is a fraction (as in the step counts of
meta rules: n(n-1)/2), giving wrong step counts.
---
 Code/Macro/Proof_System.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..c9907bb 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1470,14 +1470,14 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
       total += rest * N
     elif k_pow == 1:
       # sum_{k=0}^{N-1}(coef * k) = coef * N(N-1)/2
-      total += (rest * N * (N - 1)) // 2
+      total += rest * ((N * (N - 1)) // 2)
     elif k_pow == 2:
       # sum_{k=0}^{N-1}(coef * k^2) = coef * N(N-1)(2N-1)/6
-      total += (rest * N * (N - 1) * (2 * N - 1)) // 6
+      total += rest * ((N * (N - 1) * (2 * N - 1)) // 6)
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      total += rest * ((N * (N - 1)) // 2)**2
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
-  return total
+  return ae.simp_frac(total)
-- 
2.43.0


From ac3c42873b683df99d2a2180005d79bc1fca8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:30 +0000
Subject: [PATCH 07/25] fix: mark a machine decided only after the decision is
 complete

set_halting() set is_decided before is_halting and the step count. The
simulation alarm can fire in between, and run_timer() swallows it: the record
of a halting machine then reads "decided, not halting", i.e. infinite.
---
 Code/Halting_Lib.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Code/Halting_Lib.py b/Code/Halting_Lib.py
index e3fef50..2306ac4 100644
--- a/Code/Halting_Lib.py
+++ b/Code/Halting_Lib.py
@@ -137,7 +137,6 @@ def set_halting(tm_status  : io_pb2.BBStatus,
                 from_state  : Optional[int],
                 from_symbol : Optional[int]):
   """Specify that we know that this machine halts."""
-  tm_status.halt_status.is_decided = True
   tm_status.halt_status.is_halting = True
   set_big_int(tm_status.halt_status.halt_steps, halt_steps)
   if halt_score is not None:
@@ -146,6 +145,8 @@ def set_halting(tm_status  : io_pb2.BBStatus,
     tm_status.halt_status.from_state = from_state
   if from_symbol is not None:
     tm_status.halt_status.from_symbol = from_symbol
+  # Last, so that a timeout in the middle cannot leave a half-written decision.
+  tm_status.halt_status.is_decided = True
 
   # NOTE: We are treating Halting machines as Not Quasihalting.
   # Technically, Aaronson's definition calls Halting machines Quasihalting also.
@@ -154,14 +155,14 @@ def set_halting(tm_status  : io_pb2.BBStatus,
 def set_not_halting(tm_status  : io_pb2.BBStatus,
                     inf_reason : io_pb2.InfReason):
   """Specify that we know that this machine does not halt."""
-  tm_status.halt_status.is_decided = True
   tm_status.halt_status.is_halting = False
   tm_status.halt_status.inf_reason = inf_reason
+  tm_status.halt_status.is_decided = True
 
 def set_not_quasihalting(tm_status : io_pb2.BBStatus):
   """Specify that we know that this machine does not quasihalt."""
-  tm_status.quasihalt_status.is_decided = True
   tm_status.quasihalt_status.is_quasihalting = False
+  tm_status.quasihalt_status.is_decided = True
 
 
 def set_inf_recur(tm_status : io_pb2.BBStatus,
@@ -185,8 +186,6 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
         q_state = state
         q_last_seen = states_last_seen[state]
 
-  # Either way, we have made a conclusive decision.
-  tm_status.quasihalt_status.is_decided = True
   if q_state == None:
     # We can definitively say that this machine does NOT quasihalt.
     # Instead it enters Lin Recurrence cycling through all states forever.
@@ -199,3 +198,5 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
     # Note: A TM may quasihalt at different times with respect to different
     # states. This is guaranteed to be the final quasihalt (max steps).
     tm_status.quasihalt_status.quasihalt_state = q_state
+  # Either way, we have made a conclusive decision.
+  tm_status.quasihalt_status.is_decided = True
-- 
2.43.0


From 64402c102f5bdb5c345c85659f83ad5bac86c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 08/25] fix: disarm the simulation alarm when a simulation
 raises

An exception other than the alarm itself left it armed. It then fired while a
different machine was being processed, or outside of any handler, ending the
whole enumeration.
---
 Code/Macro_Simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..a11049a 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -67,6 +67,10 @@ def run_timer(tm_record : TM_Record, options,
     tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
       time.time() - start_time)
 
+  finally:
+    # If anything else was raised, an armed alarm would fire in unrelated code.
+    Alarm.ALARM.cancel_alarm()
+
 def run_options(tm_record : TM_Record, options) -> None:
   """Run the Accelerated Turing Machine Simulator, running a few simple filters
   first and using intelligent blockfinding."""
-- 
2.43.0


From a3c222be655fead1751bbd3e6c97d8c89ae24429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 09/25] fix: simulate without the prover

With --no-prover there is no prover to take statistics from, so every machine
ended as "threw exception" instead of being decided.
---
 Code/Macro_Simulator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index a11049a..f5082f1 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -179,13 +179,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
@@ -241,4 +242,4 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
                               from_symbol = from_symbol)
 
     else:
-      raise Exception(sim.op_state, tm.ttable_str(), sim)
+      raise Exception(sim.op_state, sim)
-- 
2.43.0


From 036e01d3a8430174509560c4a2c2c1c1ec568f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 10/25] fix: --num-enum together with --no-output

There is no output stream with --no-output: enumeration ended with an exception
before the unfinished machines were saved.
---
 Code/Enumerate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index d161d41..0b1d638 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -83,7 +83,8 @@ class Enumerator(object):
     """
     while True:
       if self.options.num_enum and self.tm_num >= self.options.num_enum:
-        self.pout.write("Ran requested number of TMs...\n")
+        if self.pout:
+          self.pout.write("Ran requested number of TMs...\n")
         break
 
       # While we have machines to run, pop one off the stack ...
-- 
2.43.0


From e7bd5b2472a94ac8ae0d81f8458b73783e08a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 11/25] fix: CTL4 initial sets must cover the whole tape

Whether the outermost block has symbols left for A depends on the size of that
block, not of the second nearest to the head. A tape not covered by
the initial sets makes the infinity proof invalid.
---
 Code/CTL4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..7b6e189 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,7 +114,7 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-- 
2.43.0


From a798b55093433290330774ecbdf34215e2aa8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:05 +0000
Subject: [PATCH 12/25] fix: Lin Recurrence detection with a step limit of 1

The search loop is not entered then and the assertion failed on a variable that
was never set.
---
 Code/Lin_Recur_Detect.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index e816422..f9abd45 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -101,7 +101,6 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
     Halting_Lib.set_not_halting(bb_status, io_pb2.INF_LIN_RECUR)
     return
   else:
-    assert sim.step_num == steps_reset, (sim.step_num, steps_reset)
     result.success = False
     # We have no information on halt_status or quasihalt_status.
     return
-- 
2.43.0


From 28ecf4bb7b392bc03446e0bc4713b3ab492b0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:41 +0000
Subject: [PATCH 13/25] fix: Backtracking_Filter reads the transition table of
 the record

IO.parse_ttable() does not exist (any more), so the filter failed on every
machine.
---
 Code/Backtracking_Filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..09f109c 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -185,7 +185,8 @@ def backtrack_ttable(TTable, steps, max_width):
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = [[(trans.symbol_out, trans.dir_out, trans.state_out)
+               for trans in row] for row in tm_record.tm().trans_table]
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From ab3c9a9360562939adb81cc767db2a011b4f5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:41 +0000
Subject: [PATCH 14/25] fix: Backtracking_Filter must consider the initial
 configuration itself

A machine that halts on its first step (A0 -> Halt, nothing leads to A) was
"proven" infinite, because only predecessors of the halting configuration were
compared to the initial one. Machines without any halt transition and a limit
of 0 steps ended in an exception.
---
 Code/Backtracking_Filter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 09f109c..648af12 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -119,6 +119,12 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  if is_init_config(pos_configs[0]):
+    # Halts on the very first step.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = max_width_seen,
+                           num_nodes = num_nodes)
+  i = -1
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
@@ -154,7 +160,9 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  # If there are no halts at all, then none can be reached.
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -174,10 +182,7 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
-- 
2.43.0


From 3ae041e68aba8371b6bc01aa94e30c4ca3277685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:43 +0000
Subject: [PATCH 15/25] fix: MPI work queue sizes must be whole numbers

max_queue_size * 3 / 4 is a float, and both the master and the workers use it
as a slice bound, which raises a TypeError (and drops the queued jobs).
---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From ee0dda7b3ef309bdb1d3ff96cd32f4a11091d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 16/25] fix: open gzip text files in text mode

gzip.open(..., "w"/"r") opens a binary stream, so reading or writing any
record of a .txt.gz or .morphett.gz file raised a TypeError.
---
 Code/IO/Morphett.py | 4 ++--
 Code/IO/StdText.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From af159475f64716196b7ce3861a923298cd6bd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 17/25] fix: BBC reader detects the end of the file when
 skipping records

seek() returns the absolute position, so skip_record() said False for records
that exist, and load_record() returned None past the end of the file.
---
 Code/IO/BBC.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..3331c8e 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -8,6 +8,7 @@ import struct
 from typing import Optional
 import zipfile
 
+from IO.Common import RecordLocateError
 from IO.TM_Record import TM_Record
 from Macro import Turing_Machine
 import TM_Enum
@@ -107,9 +108,10 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    # whence = 1 means (from current position).
-    pb_bytes = self.infile.seek(_BYTES_PER_RECORD, 1)
-    return pb_bytes == _BYTES_PER_RECORD
+    # Note: seek() returns the absolute position and not the number of bytes
+    # skipped, so read the record in order to notice the end of the file.
+    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
+    return len(tm_bytes) == _BYTES_PER_RECORD
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
@@ -136,7 +138,11 @@ def load_record(filename : str, record_num : int) -> TM_Record:
   with Reader(filename) as reader:
     for _ in range(record_num):
       reader.skip_record()
-    return reader.read_record()
+    rec = reader.read_record()
+    if rec:
+      return rec
+    else:
+      raise RecordLocateError(f"File {filename} does not contain record # {record_num}")
 
 
 class IndexReader:
-- 
2.43.0


From 371069ed03fb4ad5eac4e2ff471da591bcd12e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 18/25] fix: BBC index readers usable in a with statement

__enter__ returned None, so converting an index file raised a TypeError, and
the truncated index error referred to an undefined name.
---
 Code/IO/BBC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index 3331c8e..7b8d062 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -153,6 +153,7 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
@@ -170,7 +171,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
@@ -184,6 +185,7 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
-- 
2.43.0


From b6723505e8e39696a86a5266072096e9bb97c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 19/25] fix: writing a TM in Morphett format does not change
 the TM

---
 Code/IO/Morphett.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..a6729fb 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -32,8 +32,9 @@ class Writer:
 
   def write_record(self, tm_record : TM_Record) -> None:
     tm = tm_record.tm()
-    # Morphett uses _ for blank symbol.
-    tm.symbols[0] = "_"
+    # Morphett uses _ for blank symbol. Note: tm belongs to tm_record, so we may
+    # not change it here.
+    symbols = ["_"] + list(tm.symbols[1:])
     for state_in in range(tm.num_states):
       for symbol_in in range(tm.num_symbols):
         trans = tm.get_trans_object(symbol_in, state_in)
@@ -43,8 +44,8 @@ class Writer:
           else:
             state_out = tm.states[trans.state_out]
           # Write out one quintuple per line.
-          print(tm.states[state_in], tm.symbols[symbol_in],
-                tm.symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
+          print(tm.states[state_in], symbols[symbol_in],
+                symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
                 file=self.outfile)
 
   def flush(self):
-- 
2.43.0


From 7c3d656e476e8ec2ca463f99df4a5921154e8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:27 +0000
Subject: [PATCH 20/25] fix: Morphett reader accepts states and symbols with no
 transitions

Undefined transitions are not written, so a TM which reaches a state (or prints
a symbol) for which nothing is defined could be written but not read back.
---
 Code/IO/Morphett.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index a6729fb..57d9fad 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -88,6 +88,12 @@ class Reader:
           states.append(state_in)
         if symbol_in not in symbols:
           symbols.append(symbol_in)
+    # States and symbols may be reached without having any transition defined.
+    for (_, _, symbol_out, _, state_out) in quints:
+      if state_out != -1 and state_out not in states:
+        states.append(state_out)
+      if symbol_out not in symbols:
+        symbols.append(symbol_out)
     tm = Turing_Machine.tm_from_quintuples(quints, states, symbols)
     tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False)
     tm_record = TM_Record.TM_Record(tm_enum = tm_enum)
-- 
2.43.0


From 07995d6130eab9301f6d8faac0e84652fcef873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:53 +0000
Subject: [PATCH 21/25] fix: initialize the reference step of C++ Lin
 Recurrence detection

With max_steps <= 1 the search loop is never entered and an uninitialized
value was returned as max_ref_config_step.
---
 cpp/src/lin_recur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/lin_recur.cpp b/cpp/src/lin_recur.cpp
index 54e2bcd..6c0d669 100644
--- a/cpp/src/lin_recur.cpp
+++ b/cpp/src/lin_recur.cpp
@@ -45,7 +45,7 @@ LinRecurResult LinRecurDetect(const TuringMachine& tm, const long max_steps) {
   // TODO: Consider Seek(1024) or something like this to avoid lots of early copies.
   sim.Step();
 
-  long init_step_num;
+  long init_step_num = sim.step_num();
   while (sim.step_num() < max_steps) {
     init_step_num = sim.step_num();
     const long steps_reset = 2 * init_step_num;
-- 
2.43.0


From 92dc0341559cdb4807e2a7f9d654a186af95c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:53 +0000
Subject: [PATCH 22/25] fix: set only_unknown also when compiled without Boost

It was left uninitialized, so decided TMs could go missing from the output.
---
 cpp/src/lin_recur_enumerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..6a2b627 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -33,6 +33,7 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     out_unknown_stream_(&out_unknown_buf_),
 #endif
     max_steps_(max_steps),
+    only_unknown(only_unknown_in),
     proc_id_(proc_id)
 {
 #ifdef BOOST_FOUND
@@ -42,8 +43,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From 21c9f02a53ab3d7d8d580ca5e7d096b86a96a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:53 +0000
Subject: [PATCH 23/25] fix: report a missing TM instead of dereferencing a
 null pointer

---
 cpp/src/direct_sim.cpp     | 4 ++++
 cpp/src/lin_recur_main.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cpp/src/direct_sim.cpp b/cpp/src/direct_sim.cpp
index 5a07653..8240970 100644
--- a/cpp/src/direct_sim.cpp
+++ b/cpp/src/direct_sim.cpp
@@ -15,6 +15,10 @@ void DirectSimMain(const std::string& tm_filename, const long line_num,
                    const long num_steps) {
   std::unique_ptr<TuringMachine> tm(
     ReadTuringMachine(tm_filename, line_num));
+  if (tm == nullptr) {
+    std::cerr << "No TM on line " << line_num << " of " << tm_filename << std::endl;
+    std::exit(1);
+  }
 
   std::cout << "Starting simulation" << std::endl;
   Timer timer;
diff --git a/cpp/src/lin_recur_main.cpp b/cpp/src/lin_recur_main.cpp
index 2fa04fa..35e87a0 100644
--- a/cpp/src/lin_recur_main.cpp
+++ b/cpp/src/lin_recur_main.cpp
@@ -17,6 +17,10 @@ void LinRecurMain(const std::string& tm_filename, const long line_num,
                   const long max_steps) {
   std::unique_ptr<TuringMachine> tm(
     ReadTuringMachine(tm_filename, line_num));
+  if (tm == nullptr) {
+    std::cerr << "No TM on line " << line_num << " of " << tm_filename << std::endl;
+    std::exit(1);
+  }
 
   std::cout << "Running Lin Recur Detection" << std::endl;
   Timer timer;
-- 
2.43.0


From 15ff5ab0812b3bfb16004053eb343b52a906a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 24/25] fix: keep the sign of a negative denominator when
 normalizing an ExpInt

---
 Code/Exp_Int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..a4b3a3d 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -279,13 +279,13 @@ class ExpInt:
 
   def normalize(self):
     common = gcd(self.const, self.denom)
-    # Force denominator to be postitive
-    common = abs(common) * sign(self.denom)
     assert isinstance(common, int), (common, repr(self.denom))
     if common != 1:
       for term in self.terms:
         common = gcd(common, term.coef)
         assert isinstance(common, int), (common, repr(term.coef))
+    # Force denominator to be postitive
+    common = abs(common) * sign(self.denom)
     if common != 1:
       self.const //= common
       self.denom //= common
-- 
2.43.0


From 07577eeb9db24c35d42f59aeeb2105fc1ae05201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 25/25] fix: TM_Analyze prints statistics of files without
 simulator steps

The minimum of no values is math.inf, which the format code d rejects: analysing
a file in which no record has log10_num_steps ended with a ValueError.
---
 Code/TM_Analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..3a8555e 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -217,7 +217,7 @@ class TMStats:
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0

