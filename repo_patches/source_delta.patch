From 20612a44df999f20301a0ed9cf70fb7c0ee8316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:07 +0000
Subject: [PATCH 01/21] fix: pin the initial value of every running product and
 sum

The first cell of each accumulator column was free advice, so a prover could
start them at zero (any two tables then link) or at a value chosen after the
challenges. Sums also started at zero, which made leading zero words invisible.
---
 ckb_bf_base/src/input_table.rs       |  2 +-
 ckb_bf_base/src/instruction_table.rs |  4 ++--
 ckb_bf_base/src/main_config.rs       |  3 +++
 ckb_bf_base/src/memory_table.rs      |  2 +-
 ckb_bf_base/src/output_table.rs      |  2 +-
 ckb_bf_base/src/processor_table.rs   | 14 +++++---------
 ckb_bf_base/src/program_table.rs     |  3 ++-
 ckb_bf_base/src/utils.rs             |  3 +++
 8 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..8ded270 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -65,7 +65,7 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
                 let len = region.assign_advice(
                     || "Input length",
                     self.input_len,
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..c121436 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -148,8 +148,8 @@ impl InstructionTable for InstructionTableConfig {
             || "Load Instruction Table",
             |mut region| {
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..341446a 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -39,6 +39,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         cs.enable_equality(code);
         let input = cs.instance_column();
         cs.enable_equality(input);
+        // Holds the constants that the initial value of every running product and sum is pinned to
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         // First phase gates and tables
         let p_config = ProcessorTableConfig::configure(cs);
         let m_config = MemoryTableConfig::configure(cs);
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..15f5ada 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -107,7 +107,7 @@ impl MemoryTable for MemoryTableConfig {
             |mut region| {
                 // init prp
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..9f68037 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..0e3a7b9 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -320,17 +320,13 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
             |mut region| {
                 // init prp and rs
                 let mut mem_prp_prev =
-                    region.assign_advice(|| "mem prp", self.mem_prp, 0, || Value::known(challenges.mem_prp_init))?;
-                let mut inst_prp_prev = region.assign_advice(
-                    || "inst prp",
-                    self.inst_prp,
-                    0,
-                    || Value::known(challenges.inst_prp_init),
-                )?;
+                    region.assign_advice_from_constant(|| "mem prp", self.mem_prp, 0, challenges.mem_prp_init)?;
+                let mut inst_prp_prev =
+                    region.assign_advice_from_constant(|| "inst prp", self.inst_prp, 0, challenges.inst_prp_init)?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, challenges.rs_init)?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, challenges.rs_init)?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..5f31cd0 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -76,7 +76,8 @@ impl ProgramTable for ProgramTableConfig {
                     || Value::known(Fr::from(matrix.program.len() as u64)),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev =
+                    region.assign_advice_from_constant(|| "rs", self.code_rs, 0, challenges.rs_init)?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 674d5b8..9c22c5e 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -40,6 +40,8 @@ pub type BFCell = AssignedCell<Fr, Fr>;
 pub struct BFChallenge {
     pub(crate) mem_prp_init: Fr,
     pub(crate) inst_prp_init: Fr,
+    // Non-zero, so that leading zeros of a summed sequence are significant
+    pub(crate) rs_init: Fr,
     challenges: [Challenge; 11],
 }
 
@@ -49,6 +51,7 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
+            rs_init: Fr::one(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From 6f8d7a205ceb7623e0859684463234d7e728c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:07 +0000
Subject: [PATCH 02/21] fix: bind the public lengths to the number of words the
 circuit copies

The length cells were free advice only compared with the public length word, so
any public length (and thus extra public words the run never used) was accepted.
---
 ckb_bf_base/src/input_table.rs   | 7 ++++---
 ckb_bf_base/src/program_table.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index 8ded270..b1956e5 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -66,11 +66,12 @@ impl InputTable for InputTableConfig {
             |mut region| {
                 // init rs_0
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
-                let len = region.assign_advice(
+                // The length is a constant of the circuit: it is the number of values copied below
+                let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
                     0,
-                    || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
+                    Fr::from(matrix.input_matrix.len() as u64),
                 )?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 5f31cd0..06040fe 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -69,11 +69,12 @@ impl ProgramTable for ProgramTableConfig {
                 // The solution here is to let prover provide the program length, expose the
                 // program length as public
                 // And use constraint_instance to make sure the length is correct
-                let len = region.assign_advice(
+                // The length is a constant of the circuit: it is the number of words copied below
+                let len = region.assign_advice_from_constant(
                     || "Program length",
                     self.program_len,
                     0,
-                    || Value::known(Fr::from(matrix.program.len() as u64)),
+                    Fr::from(matrix.program.len() as u64),
                 )?;
 
                 let mut rs_prev =
-- 
2.43.0


From 983413e2b5f5ea1b97533948887e0123840db247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:07 +0000
Subject: [PATCH 03/21] fix: tie the instruction table to the program

The first row could have any ip (a run could start in the middle of the program),
ni was not tied to the following code word (jump targets were free) and the row
after the program could hold a jump (a run could go on after it had halted).
---
 ckb_bf_base/src/instruction_table.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index c121436..b597953 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for the first row
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,20 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("IB0: the first instruction pointer is 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
+
+        cs.create_gate("IB1: the dummy row after the program has ci = ni = 0", |vc| {
+            let ci = vc.query_advice(ci, Rotation::prev());
+            let ni = vc.query_advice(ni, Rotation::prev());
+            let s_prp_adhoc = vc.query_selector(s_prp_adhoc);
+            vec![s_prp_adhoc.clone() * ci, s_prp_adhoc * ni]
+        });
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -70,6 +85,15 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases by one, then ni is the ci of the next ip.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (next_ci - cur_ni)]
+        });
         Self {
             ip,
             ci,
@@ -77,6 +101,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -151,6 +176,7 @@ impl InstructionTable for InstructionTableConfig {
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
                     if idx < instruction_matrix.len() - 1 {
-- 
2.43.0


From 9673243e5a97ced318d258261abd85e74fed096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:36 +0000
Subject: [PATCH 04/21] fix: order the memory table

Rows of one cell did not have to be in cycle order, so a run could read back a
value the cell no longer held, and the first row could be any cell, so a run
could use cells left of cell 0.
---
 ckb_bf_base/src/memory_table.rs | 40 +++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 15f5ada..1c6b5d1 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -25,6 +25,9 @@ pub struct MemoryTableConfig {
     prp: Column<Advice>,
     s_m: Selector, // selector for condition m category (memory table)
     s_prp: Selector,
+    s_b: Selector,          // selector for the first row
+    s_clk: Selector,        // selector for the clk order lookup
+    clk_table: TableColumn, // every possible distance of two cycles of the run
 }
 
 impl MemoryTable for MemoryTableConfig {
@@ -38,6 +41,28 @@ impl MemoryTable for MemoryTableConfig {
         cs.enable_equality(prp);
         let s_m = cs.selector();
         let s_prp = cs.selector();
+        let s_b = cs.selector();
+        let s_clk = cs.complex_selector();
+        let clk_table = cs.lookup_table_column();
+
+        cs.create_gate("MB: the first row is cell 0 holding 0", |vc| {
+            let mp = vc.query_advice(mp, Rotation::cur());
+            let mv = vc.query_advice(mv, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b.clone() * mp, s_b * mv]
+        });
+
+        cs.lookup("M3: If mp is unchanged, then clk increases.", |vc| {
+            let cur_mp = vc.query_advice(mp, Rotation::cur());
+            let next_mp = vc.query_advice(mp, Rotation::next());
+            let cur_clk = vc.query_advice(clk, Rotation::cur());
+            let next_clk = vc.query_advice(clk, Rotation::next());
+            let s_clk = vc.query_selector(s_clk);
+            vec![(
+                s_clk * (cur_mp + one.clone() - next_mp) * (next_clk - cur_clk - one.clone()),
+                clk_table,
+            )]
+        });
 
         cs.create_gate("M0: memory pointer either increase by one or by zero", |vc| {
             let cur_mp = vc.query_advice(mp, Rotation::cur());
@@ -78,6 +103,9 @@ impl MemoryTable for MemoryTableConfig {
             prp,
             s_m,
             s_prp,
+            s_b,
+            s_clk,
+            clk_table,
         }
     }
 
@@ -100,6 +128,16 @@ impl MemoryTable for MemoryTableConfig {
         matrix: &Matrix,
         challenges: BFChallenge,
     ) -> Result<BFCell, Error> {
+        // All cycles lie in 0..memory_matrix.len(), hence so do their distances
+        layouter.assign_table(
+            || "load clk distance table",
+            |mut table| {
+                for value in 0..matrix.memory_matrix.len().max(1) {
+                    table.assign_cell(|| "distance", self.clk_table, value, || Value::known(Fr::from(value as u64)))?;
+                }
+                Ok(())
+            },
+        )?;
         // Read challenges
         let [alpha, d, e, f] = challenges.get_mem_prp_challenges().map(|c| layouter.get_challenge(c));
         layouter.assign_region(
@@ -109,10 +147,12 @@ impl MemoryTable for MemoryTableConfig {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
                         // M condition is enabled except last row
                         self.s_m.enable(&mut region, idx)?;
+                        self.s_clk.enable(&mut region, idx)?;
                     }
                     self.s_prp.enable(&mut region, idx)?;
                     let clk = region.assign_advice(|| "clk", self.clk, idx, || Value::known(row.cycle))?;
-- 
2.43.0


From f6e3023b2a2652abefcaa10df1299db44e034268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 05/21] fix: leave room for the blinding rows when the prover
 picks k

A program whose instruction table just filled a power of two made keygen
panic with NotEnoughRowsAvailable.
---
 ckb_bf_prover/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index e58063c..5c77059 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -7,7 +7,9 @@ use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
 use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
 use halo2_proofs::halo2curves::FieldExt;
-use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, VerifyingKey};
+use halo2_proofs::plonk::{
+    create_proof, keygen_pk, keygen_vk, verify_proof, Circuit, ConstraintSystem, VerifyingKey,
+};
 use halo2_proofs::poly::commitment::{Params, ParamsProver};
 use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
 use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
@@ -148,10 +150,11 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     i.set_code(code.clone());
     i.run();
     // the bf lookup table has k=8
-    let k = std::cmp::max(
-        i.matrix.instruction_matrix.len().next_power_of_two().trailing_zeros(),
-        9,
-    );
+    // the instruction table, its final row and the rows reserved for blinding all have to fit
+    let mut cs = ConstraintSystem::default();
+    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
+    let rows = i.matrix.instruction_matrix.len() + 1 + cs.blinding_factors() + 1;
+    let k = std::cmp::max(rows.next_power_of_two().trailing_zeros(), 9);
 
     let circuit = MyCircuit::<Fr, { DOMAIN }>::new(i.matrix);
     prove_and_verify(k, circuit, c, input.into_bytes());
-- 
2.43.0


From c56c21f49d3edcb8ec68b8ce63d8b5f6c7859282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 06/21] fix: accept programs and inputs that fill the
 verifier's buffers

The public columns carry the length in front of the words, so a program of
1024 words or an input of 1024 bytes indexed past the arrays.
---
 ckb_bf_verifier/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_verifier/src/main.rs b/ckb_bf_verifier/src/main.rs
index debd681..58a5837 100644
--- a/ckb_bf_verifier/src/main.rs
+++ b/ckb_bf_verifier/src/main.rs
@@ -76,7 +76,7 @@ pub fn program_entry() -> i8 {
     };
     assert!(raw_code_len % 2 == 0); // san-check
     let code_len = raw_code_len / 2;
-    let mut code = [Fr::zero(); 1024];
+    let mut code = [Fr::zero(); 1025]; // the length, then up to 1024 words
     code[0] = Fr::from(code_len as u64);
     (0..code_len).for_each(|idx| {
         code[idx + 1] = Fr::from(u16::from_le_bytes([code_buffer[idx * 2], code_buffer[idx * 2 + 1]]) as u64)
@@ -93,7 +93,7 @@ pub fn program_entry() -> i8 {
             return -1;
         }
     };
-    let mut input = [Fr::zero(); 1024];
+    let mut input = [Fr::zero(); 1025]; // the length, then up to 1024 bytes
     input[0] = Fr::from(input_len as u64);
     (0..input_len).for_each(|idx| {
         input[idx+1] = Fr::from(input_buffer[idx] as u64);
-- 
2.43.0


From 3ed8255b68aa209f0e2b8ad6abde62d99c4ca9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:43 +0000
Subject: [PATCH 07/21] fix: rebuild a parameter cache that cannot be read

A run interrupted while writing res/params_k.bin left a file that made every
later run panic.
---
 ckb_bf_prover/src/main.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index 5c77059..27ea325 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -35,17 +35,22 @@ fn prove_and_verify(k: u32, circuit: MyCircuit<Fr, DOMAIN>, raw_code: Vec<u8>, r
     let s = Fr::from_u128(GOD_PRIVATE_KEY);
     info!("Start trusted setup (k={}), using unsafe GOD_PRIVATE_KEY (42) ...", k);
     let general_params = {
-        let r = read(&format!("res/params_{}.bin", k));
-        if r.is_err() {
-            info!("No local params, generate new one.");
-            let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
-            let mut buf = vec![];
-            params.write(&mut buf).expect("Write params to buf failed.");
-            write(&format!("res/params_{}.bin", k), buf).expect("Write params to file failed");
-            params
-        } else {
-            info!("Use local params.");
-            ParamsKZG::<Bn256>::read(&mut r.unwrap().as_slice()).expect("Read params from file failed.")
+        let path = format!("res/params_{}.bin", k);
+        // an interrupted run may have left an incomplete file behind
+        let local = read(&path).ok().and_then(|buf| ParamsKZG::<Bn256>::read(&mut buf.as_slice()).ok());
+        match local {
+            Some(params) => {
+                info!("Use local params.");
+                params
+            }
+            None => {
+                info!("No local params, generate new one.");
+                let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
+                let mut buf = vec![];
+                params.write(&mut buf).expect("Write params to buf failed.");
+                write(&path, buf).expect("Write params to file failed");
+                params
+            }
         }
     };
     let mut verifier_params: ParamsVerifierKZG<Bn256> = general_params.verifier_params().clone();
-- 
2.43.0


From c881b0f2d555b4b6970aa19ffa3e2dc5916cf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:39 +0000
Subject: [PATCH 08/21] fix: build halo2curves with the asm feature in a no_std
 crate

---
 halo2curves/src/bn256/assembly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/assembly.rs b/halo2curves/src/bn256/assembly.rs
index 1a47655..33e044e 100644
--- a/halo2curves/src/bn256/assembly.rs
+++ b/halo2curves/src/bn256/assembly.rs
@@ -4,7 +4,7 @@ macro_rules! field_arithmetic_asm {
         $modulus:ident,
         $inv:ident
     ) => {
-        use std::arch::asm;
+        use core::arch::asm;
 
         impl $field {
             /// Doubles this field element.
-- 
2.43.0


From 4edf9ccae779a84716c89c5ac3ef7abcd9f94226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 09/21] fix: propagate every carry in the assembly field
 arithmetic

---
 halo2curves/src/bn256/assembly.rs | 113 ++++++++++++++++++++++++++++++
 1 file changed, 113 insertions(+)

diff --git a/halo2curves/src/bn256/assembly.rs b/halo2curves/src/bn256/assembly.rs
index 33e044e..a4eecbc 100644
--- a/halo2curves/src/bn256/assembly.rs
+++ b/halo2curves/src/bn256/assembly.rs
@@ -110,6 +110,7 @@ macro_rules! field_arithmetic_asm {
                         "add r9, rax",
                         "adcx r10, rcx",
                         "adc r11, 0",
+                        "adc r12, 0",
 
                         // a1 * b1
                         "mulx rcx, rax, r14",
@@ -139,12 +140,15 @@ macro_rules! field_arithmetic_asm {
                         "add r10, rax",
                         "adcx r11, rcx",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
 
                         // a2 * b1
                         "mulx rcx, rax, qword ptr [{a_ptr} + 8]",
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
 
                         // a2 * b2
                         "mulx rcx, rax, r15",
@@ -167,12 +171,15 @@ macro_rules! field_arithmetic_asm {
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // a3 * b1
                         "mulx rcx, rax, qword ptr [{a_ptr} + 8]",
                         "add r12, rax",
                         "adcx r13, rcx",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // a3 * b2
                         "mulx rcx, rax, qword ptr [{a_ptr} + 16]",
@@ -197,24 +204,38 @@ macro_rules! field_arithmetic_asm {
                         "add r8, rax",
                         "adcx r9, rcx",
                         "adc r10, 0",
+                        "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r8' * m1
                         "mulx rcx, rax, qword ptr [{m_ptr} + 8]",
                         "add r9, rax",
                         "adcx r10, rcx",
                         "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r8' * m2
                         "mulx rcx, rax, qword ptr [{m_ptr} + 16]",
                         "add r10, rax",
                         "adcx r11, rcx",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r8' * m3
                         "mulx rcx, rax, qword ptr [{m_ptr} + 24]",
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // `r9` -> 0
                         "mov rdx, {inv}",
@@ -225,24 +246,34 @@ macro_rules! field_arithmetic_asm {
                         "add r9, rcx",
                         "adcx r10, rax",
                         "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r10, rcx",
                         "adcx r11, rax",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m3
                         "mulx rax, rcx, qword ptr [{m_ptr} + 24]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // `r10` -> 0
                         "mov rdx, {inv}",
@@ -253,18 +284,24 @@ macro_rules! field_arithmetic_asm {
                         "add r10, rcx",
                         "adcx r11, rax",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m3
                         "mulx rax, rcx, qword ptr [{m_ptr} + 24]",
@@ -281,12 +318,15 @@ macro_rules! field_arithmetic_asm {
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r11' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // r11' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
@@ -382,24 +422,38 @@ macro_rules! field_arithmetic_asm {
                         "add r8, rax",
                         "adcx r9, rcx",
                         "adc r10, 0",
+                        "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r8' * m1
                         "mulx rcx, rax, qword ptr [{m_ptr} + 8]",
                         "add r9, rax",
                         "adcx r10, rcx",
                         "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // // r8' * m2
                         "mulx rcx, rax, qword ptr [{m_ptr} + 16]",
                         "add r10, rax",
                         "adcx r11, rcx",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // // r8' * m3
                         "mulx rcx, rax, qword ptr [{m_ptr} + 24]",
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // `r9` -> 0
                         "mov rdx, {inv}",
@@ -410,24 +464,34 @@ macro_rules! field_arithmetic_asm {
                         "add r9, rcx",
                         "adcx r10, rax",
                         "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r10, rcx",
                         "adcx r11, rax",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m3
                         "mulx rax, rcx, qword ptr [{m_ptr} + 24]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // `r10` -> 0
                         "mov rdx, {inv}",
@@ -438,18 +502,24 @@ macro_rules! field_arithmetic_asm {
                         "add r10, rcx",
                         "adcx r11, rax",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m3
                         "mulx rax, rcx, qword ptr [{m_ptr} + 24]",
@@ -466,12 +536,15 @@ macro_rules! field_arithmetic_asm {
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r11' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // r11' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
@@ -584,6 +657,7 @@ macro_rules! field_arithmetic_asm {
                         "add r9, rax",
                         "adcx r10, rcx",
                         "adc r11, 0",
+                        "adc r12, 0",
 
                         // a1 * b1
                         "mulx rcx, rax, r14",
@@ -613,12 +687,15 @@ macro_rules! field_arithmetic_asm {
                         "add r10, rax",
                         "adcx r11, rcx",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
 
                         // a2 * b1
                         "mulx rcx, rax, qword ptr [{b_ptr} + 8]",
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
 
                         // a2 * b2
                         "mulx rcx, rax, r15",
@@ -641,12 +718,15 @@ macro_rules! field_arithmetic_asm {
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // a3 * b1
                         "mulx rcx, rax, qword ptr [{b_ptr} + 8]",
                         "add r12, rax",
                         "adcx r13, rcx",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // a3 * b2
                         "mulx rcx, rax, qword ptr [{b_ptr} + 16]",
@@ -671,24 +751,38 @@ macro_rules! field_arithmetic_asm {
                         "add r8, rax",
                         "adcx r9, rcx",
                         "adc r10, 0",
+                        "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r8' * m1
                         "mulx rcx, rax, qword ptr [{m_ptr} + 8]",
                         "add r9, rax",
                         "adcx r10, rcx",
                         "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // // r8' * m2
                         "mulx rcx, rax, qword ptr [{m_ptr} + 16]",
                         "add r10, rax",
                         "adcx r11, rcx",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // // r8' * m3
                         "mulx rcx, rax, qword ptr [{m_ptr} + 24]",
                         "add r11, rax",
                         "adcx r12, rcx",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // `r9` -> 0
                         "mov rdx, {inv}",
@@ -699,24 +793,34 @@ macro_rules! field_arithmetic_asm {
                         "add r9, rcx",
                         "adcx r10, rax",
                         "adc r11, 0",
+                        "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r10, rcx",
                         "adcx r11, rax",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r9' * m3
                         "mulx rax, rcx, qword ptr [{m_ptr} + 24]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // `r10` -> 0
                         "mov rdx, {inv}",
@@ -727,18 +831,24 @@ macro_rules! field_arithmetic_asm {
                         "add r10, rcx",
                         "adcx r11, rax",
                         "adc r12, 0",
+                        "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // r10' * m3
                         "mulx rax, rcx, qword ptr [{m_ptr} + 24]",
@@ -755,12 +865,15 @@ macro_rules! field_arithmetic_asm {
                         "add r11, rcx",
                         "adcx r12, rax",
                         "adc r13, 0",
+                        "adc r14, 0",
+                        "adc r15, 0",
 
                         // r11' * m1
                         "mulx rax, rcx, qword ptr [{m_ptr} + 8]",
                         "add r12, rcx",
                         "adcx r13, rax",
                         "adc r14, 0",
+                        "adc r15, 0",
 
                         // r11' * m2
                         "mulx rax, rcx, qword ptr [{m_ptr} + 16]",
-- 
2.43.0


From d6fdfffce52ca4512f8c0d61582c52d7d4237235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 10/21] fix: keep the top carry of from_raw in asm builds

---
 halo2curves/src/derive/field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/halo2curves/src/derive/field.rs b/halo2curves/src/derive/field.rs
index 43a2786..041f2c1 100644
--- a/halo2curves/src/derive/field.rs
+++ b/halo2curves/src/derive/field.rs
@@ -98,13 +98,14 @@ macro_rules! field_common {
                     let (r4, carry) = mac(r4, k, $modulus.0[1], carry);
                     let (r5, carry) = mac(r5, k, $modulus.0[2], carry);
                     let (r6, carry) = mac(r6, k, $modulus.0[3], carry);
-                    let (r7, _) = adc(r7, carry2, carry);
+                    let (r7, carry) = adc(r7, carry2, carry);
 
                     // Montgomery reduction (sub part)
                     let (d0, borrow) = sbb(r4, $modulus.0[0], 0);
                     let (d1, borrow) = sbb(r5, $modulus.0[1], borrow);
                     let (d2, borrow) = sbb(r6, $modulus.0[2], borrow);
                     let (d3, borrow) = sbb(r7, $modulus.0[3], borrow);
+                    let (_, borrow) = sbb(carry, 0, borrow);
 
                     let (d0, carry) = adc(d0, $modulus.0[0] & borrow, 0);
                     let (d1, carry) = adc(d1, $modulus.0[1] & borrow, carry);
-- 
2.43.0


From 142f7775cc9bf68b1998b1125c2652d30665aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:07 +0000
Subject: [PATCH 11/21] fix: look at every coefficient in Fq6::is_zero

---
 halo2curves/src/bn256/fq6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/fq6.rs b/halo2curves/src/bn256/fq6.rs
index cbf8cb1..4679d6e 100644
--- a/halo2curves/src/bn256/fq6.rs
+++ b/halo2curves/src/bn256/fq6.rs
@@ -401,7 +401,7 @@ impl Field for Fq6 {
     }
 
     fn is_zero(&self) -> Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From f5056b438cb363fc6d79d055127b4cf05c80c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:07 +0000
Subject: [PATCH 12/21] fix: refuse non-canonical Fq2 encodings instead of
 panicking

---
 halo2curves/src/bn256/fq2.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 56a5674..3a5a423 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -133,13 +133,7 @@ impl Fq2 {
     pub fn from_bytes(bytes: &[u8; 64]) -> CtOption<Fq2> {
         let c0 = Fq::from_bytes(bytes[0..32].try_into().unwrap());
         let c1 = Fq::from_bytes(bytes[32..64].try_into().unwrap());
-        CtOption::new(
-            Fq2 {
-                c0: c0.unwrap(),
-                c1: c1.unwrap(),
-            },
-            c0.is_some() & c1.is_some(),
-        )
+        c0.and_then(|c0| c1.map(|c1| Fq2 { c0, c1 }))
     }
 
     /// Converts an element of `Fq` into a byte representation in
-- 
2.43.0


From 6134a18d348024eab67bb5fa93ee18a892fd6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:46 +0000
Subject: [PATCH 13/21] fix: check raw points read from a stream against the
 curve equation

---
 halo2curves/src/derive/curve.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..4f734e5 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,11 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +681,11 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 1cdbdee9ffc83dc8d4c3073050c79dab2957bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:47 +0000
Subject: [PATCH 14/21] fix: refuse compressed points with stray bits beside
 the sign

---
 halo2curves/src/derive/curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index 4f734e5..243a985 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -612,6 +612,10 @@ macro_rules! new_curve_impl {
                 tmp[$compressed_size - 1] &= 0b0111_1111;
                 let mut xbytes = [0u8; $base::size()];
                 xbytes.copy_from_slice(&tmp[ ..$base::size()]);
+                // Only the sign may follow the x coordinate.
+                if tmp[$base::size()..].iter().any(|byte| *byte != 0) {
+                    return CtOption::new(Self::identity(), Choice::from(0u8));
+                }
 
                 $base::from_bytes(&xbytes).and_then(|x| {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
-- 
2.43.0


From a5ca0aa14361eebd0d0952f97a77c2bc8f8d891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:04 +0000
Subject: [PATCH 15/21] fix: make the batch verifier build without rayon

Serial iterators have no try_reduce; with feature batch enabled the crate did
not compile.
---
 halo2_proofs/src/plonk/verifier/batch.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/halo2_proofs/src/plonk/verifier/batch.rs b/halo2_proofs/src/plonk/verifier/batch.rs
index 8e5699e..5f48f3d 100644
--- a/halo2_proofs/src/plonk/verifier/batch.rs
+++ b/halo2_proofs/src/plonk/verifier/batch.rs
@@ -116,11 +116,9 @@ impl<C: CurveAffine> BatchVerifier<C> {
                 let mut transcript = Blake2bRead::init(&item.proof[..]);
                 verify_proof(params, vk, strategy, &instances, &mut transcript).map_err(|e| e)
             })
-            .try_fold(
-                || params.empty_msm(),
-                |msm, res| res.map(|proof_msm| accumulate_msm(msm, proof_msm)),
-            )
-            .try_reduce(|| params.empty_msm(), |a, b| Ok(accumulate_msm(a, b)));
+            .try_fold(params.empty_msm(), |msm, res| {
+                res.map(|proof_msm| accumulate_msm(msm, proof_msm))
+            });
 
         match final_msm {
             Ok(msm) => msm.check(),
-- 
2.43.0


From a3a4790230861964cfa35be2754ce382e1fe4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:04 +0000
Subject: [PATCH 16/21] fix: MockProver cell checks for instance cells and
 regions without cells

A gate enabled by a selector and reading an instance column was always
reported as CellNotAssigned, a region enabling a selector without assigning
any cell panicked, and gate_offset was an absolute row although documented as
relative to the region.
---
 halo2_proofs/src/dev.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index dcd40b7..af34bd2 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -726,8 +726,18 @@ impl<F: FieldExt> MockProver<F> {
                         at.iter().flat_map(move |selector_row| {
                             // Selectors are queried with no rotation.
                             let gate_row = *selector_row as i32;
+                            // The region may enable a selector above its first cell, or
+                            // have no cells at all.
+                            let start = r
+                                .rows
+                                .map_or(*selector_row, |(start, _)| start.min(*selector_row));
 
                             gate.queried_cells().iter().filter_map(move |cell| {
+                                // Instance cells do not belong to any region.
+                                if matches!(cell.column.column_type(), Any::Instance) {
+                                    return None;
+                                }
+
                                 // Determine where this cell should have been assigned.
                                 let cell_row = ((gate_row + n + cell.rotation.0) % n) as usize;
 
@@ -738,9 +748,9 @@ impl<F: FieldExt> MockProver<F> {
                                     Some(VerifyFailure::CellNotAssigned {
                                         gate: (gate_index, gate.name()).into(),
                                         region: (r_i, r.name.clone(), r.annotations.clone()).into(),
-                                        gate_offset: *selector_row,
+                                        gate_offset: *selector_row - start,
                                         column: cell.column,
-                                        offset: cell_row as isize - r.rows.unwrap().0 as isize,
+                                        offset: cell_row as isize - start as isize,
                                     })
                                 }
                             })
@@ -1085,10 +1095,20 @@ impl<F: FieldExt> MockProver<F> {
                             .flat_map(move |selector_row| {
                                 // Selectors are queried with no rotation.
                                 let gate_row = *selector_row as i32;
+                                // The region may enable a selector above its first cell, or
+                                // have no cells at all.
+                                let start = r
+                                    .rows
+                                    .map_or(*selector_row, |(start, _)| start.min(*selector_row));
 
                                 gate.queried_cells()
                                     .iter()
                                     .filter_map(move |cell| {
+                                        // Instance cells do not belong to any region.
+                                        if matches!(cell.column.column_type(), Any::Instance) {
+                                            return None;
+                                        }
+
                                         // Determine where this cell should have been assigned.
                                         let cell_row =
                                             ((gate_row + n + cell.rotation.0) % n) as usize;
@@ -1105,10 +1125,9 @@ impl<F: FieldExt> MockProver<F> {
                                                     r.annotations.clone(),
                                                 )
                                                     .into(),
-                                                gate_offset: *selector_row,
+                                                gate_offset: *selector_row - start,
                                                 column: cell.column,
-                                                offset: cell_row as isize
-                                                    - r.rows.unwrap().0 as isize,
+                                                offset: cell_row as isize - start as isize,
                                             })
                                         }
                                     })
-- 
2.43.0


From 474d91c370badec56bf8d33e22bc7c29c802c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:47 +0000
Subject: [PATCH 17/21] fix: read selector assignments in the key's format and
 report bad data

Keys written in the Processed format could not be read back, and truncated
keys panicked instead of returning an error.
---
 halo2_proofs/src/plonk.rs                            | 4 +++-
 halo2_proofs/src/plonk/circuit.rs                    | 2 +-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..5eee0c1 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,9 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<io::Result<Vec<_>>>()?;
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..275883c 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From 7a57952e43b5efb981b9a81c507b5472d2d4f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:35 +0000
Subject: [PATCH 18/21] fix: key to_bytes no longer panics

The size estimate used for preallocation could not be computed and aborted
every call; write into a growing vector instead.
---
 halo2_proofs/src/helpers.rs           |  6 ------
 halo2_proofs/src/plonk.rs             | 27 +++------------------------
 halo2_proofs/src/plonk/permutation.rs | 14 +-------------
 3 files changed, 4 insertions(+), 43 deletions(-)

diff --git a/halo2_proofs/src/helpers.rs b/halo2_proofs/src/helpers.rs
index e072a9a..b2c824b 100644
--- a/halo2_proofs/src/helpers.rs
+++ b/halo2_proofs/src/helpers.rs
@@ -184,9 +184,3 @@ pub(crate) fn write_polynomial_slice<W: io::Write, F: SerdePrimeField, B>(
     }
     Ok(())
 }
-
-/// Gets the total number of bytes of a slice of polynomials, assuming all polynomials are the same length
-pub(crate) fn polynomial_slice_byte_length<F: PrimeField, B>(slice: &[Polynomial<F, B>]) -> usize {
-    let field_len = F::default().to_repr().as_ref().len();
-    4 + slice.len() * (4 + field_len * slice.get(0).map(|poly| poly.len()).unwrap_or(0))
-}
diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 5eee0c1..77babf2 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -12,8 +12,7 @@ use halo2curves::pairing::Engine;
 
 use crate::arithmetic::{CurveAffine, FieldExt};
 use crate::helpers::{
-    polynomial_slice_byte_length, read_polynomial_vec, write_polynomial_slice, SerdeCurveAffine,
-    SerdePrimeField,
+    read_polynomial_vec, write_polynomial_slice, SerdeCurveAffine, SerdePrimeField,
 };
 use crate::poly::{
     commitment::Params, Coeff, EvaluationDomain, ExtendedLagrangeCoeff, LagrangeCoeff,
@@ -135,7 +134,7 @@ where
 
     /// Writes a verifying key to a vector of bytes using [`Self::write`].
     pub fn to_bytes(&self, format: SerdeFormat) -> Vec<u8> {
-        let mut bytes = Vec::<u8>::with_capacity(self.bytes_length());
+        let mut bytes = Vec::<u8>::new();
         Self::write(self, &mut bytes, format).expect("Writing to vector should not fail");
         bytes
     }
@@ -150,14 +149,6 @@ where
 }
 
 impl<C: CurveAffine> VerifyingKey<C> {
-    fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
-        8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
-            + self.permutation.bytes_length()
-    }
-
     fn from_parts(
         domain: EvaluationDomain<C::Scalar>,
         fixed_commitments: Vec<C>,
@@ -265,18 +256,6 @@ impl<C: CurveAffine> ProvingKey<C> {
     pub fn get_vk(&self) -> &VerifyingKey<C> {
         &self.vk
     }
-
-    /// Gets the total number of bytes in the serialization of `self`
-    fn bytes_length(&self) -> usize {
-        let scalar_len = C::Scalar::default().to_repr().as_ref().len();
-        self.vk.bytes_length()
-            + 12
-            + scalar_len * (self.l0.len() + self.l_last.len() + self.l_active_row.len())
-            + polynomial_slice_byte_length(&self.fixed_values)
-            + polynomial_slice_byte_length(&self.fixed_polys)
-            //+ polynomial_slice_byte_length(&self.fixed_cosets)
-            + self.permutation.bytes_length()
-    }
 }
 
 impl<C: SerdeCurveAffine> ProvingKey<C>
@@ -344,7 +323,7 @@ where
 
     /// Writes a proving key to a vector of bytes using [`Self::write`].
     pub fn to_bytes(&self, format: SerdeFormat) -> Vec<u8> {
-        let mut bytes = Vec::<u8>::with_capacity(self.bytes_length());
+        let mut bytes = Vec::<u8>::new();
         Self::write(self, &mut bytes, format).expect("Writing to vector should not fail");
         bytes
     }
diff --git a/halo2_proofs/src/plonk/permutation.rs b/halo2_proofs/src/plonk/permutation.rs
index 2cc0b12..831414a 100644
--- a/halo2_proofs/src/plonk/permutation.rs
+++ b/halo2_proofs/src/plonk/permutation.rs
@@ -2,7 +2,7 @@ use super::circuit::{Any, Column};
 use crate::{
     arithmetic::CurveAffine,
     helpers::{
-        polynomial_slice_byte_length, read_polynomial_vec, write_polynomial_slice,
+        read_polynomial_vec, write_polynomial_slice,
         SerdeCurveAffine, SerdePrimeField,
     },
     poly::{Coeff, ExtendedLagrangeCoeff, LagrangeCoeff, Polynomial},
@@ -113,10 +113,6 @@ impl<C: CurveAffine> VerifyingKey<C> {
             .collect::<Result<Vec<_>, _>>()?;
         Ok(VerifyingKey { commitments })
     }
-
-    pub(crate) fn bytes_length(&self) -> usize {
-        self.commitments.len() * C::default().to_bytes().as_ref().len()
-    }
 }
 
 /// The proving key for a single permutation argument.
@@ -154,11 +150,3 @@ where
         Ok(())
     }
 }
-
-impl<C: CurveAffine> ProvingKey<C> {
-    /// Gets the total number of bytes in the serialization of `self`
-    pub(super) fn bytes_length(&self) -> usize {
-        polynomial_slice_byte_length(&self.permutations) + polynomial_slice_byte_length(&self.polys)
-        //    + polynomial_slice_byte_length(&self.cosets)
-    }
-}
-- 
2.43.0


From 5e9b08840b369b1be96ed721cf07e9bcf9d086c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 19/21] Verification hooks behind --cfg verif_hooks

ProverQuery::new and fault injection points in the lookup and permutation
provers, for the harness in /verif. Nothing changes without the cfg.
---
 halo2_proofs/src/lib.rs                      |  2 +
 halo2_proofs/src/plonk/lookup/prover.rs      | 25 +++++++-
 halo2_proofs/src/plonk/permutation/prover.rs | 11 ++++
 halo2_proofs/src/poly/query.rs               | 12 ++++
 halo2_proofs/src/verif_hooks.rs              | 63 ++++++++++++++++++++
 5 files changed, 111 insertions(+), 2 deletions(-)
 create mode 100644 halo2_proofs/src/verif_hooks.rs

diff --git a/halo2_proofs/src/lib.rs b/halo2_proofs/src/lib.rs
index 6560f8d..413455b 100644
--- a/halo2_proofs/src/lib.rs
+++ b/halo2_proofs/src/lib.rs
@@ -55,6 +55,8 @@ pub mod transcript;
 
 pub mod dev;
 pub mod helpers;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 pub use helpers::SerdeFormat;
 
 pub(crate) fn get_rng() -> rand_chacha::ChaCha20Rng {
diff --git a/halo2_proofs/src/plonk/lookup/prover.rs b/halo2_proofs/src/plonk/lookup/prover.rs
index 7060a2f..dcd8cf7 100644
--- a/halo2_proofs/src/plonk/lookup/prover.rs
+++ b/halo2_proofs/src/plonk/lookup/prover.rs
@@ -116,14 +116,28 @@ impl<F: FieldExt> Argument<F> {
         let compressed_table_expression = compress_expressions(&self.table_expressions);
 
         // Permute compressed (InputExpression, TableExpression) pair
-        let (permuted_input_expression, permuted_table_expression) = permute_expression_pair(
+        let permuted = permute_expression_pair(
             pk,
             params,
             domain,
             &mut rng,
             &compressed_input_expression,
             &compressed_table_expression,
-        )?;
+        );
+        #[cfg(verif_hooks)]
+        let permuted = {
+            let mut site = crate::verif_hooks::LookupPermuted {
+                usable_rows: params.n() as usize - (pk.vk.cs.blinding_factors() + 1),
+                input: compressed_input_expression.to_vec(),
+                table: compressed_table_expression.to_vec(),
+                permuted: permuted.ok().map(|(a, s)| (a.to_vec(), s.to_vec())),
+            };
+            crate::verif_hooks::call(&mut site);
+            site.permuted
+                .map(|(a, s)| (domain.lagrange_from_vec(a), domain.lagrange_from_vec(s)))
+                .ok_or(Error::ConstraintSystemFailure)
+        };
+        let (permuted_input_expression, permuted_table_expression) = permuted?;
 
         // Closure to construct commitment to vector of values
         let mut commit_values = |values: &Polynomial<C::Scalar, LagrangeCoeff>| {
@@ -249,6 +263,13 @@ impl<C: CurveAffine> Permuted<C> {
             .chain((0..blinding_factors).map(|_| C::Scalar::random(&mut rng)))
             .collect::<Vec<_>>();
         assert_eq!(z.len(), params.n() as usize);
+        #[cfg(verif_hooks)]
+        let z = {
+            let last = params.n() as usize - (blinding_factors + 1);
+            let mut site = crate::verif_hooks::LookupProduct { z, last };
+            crate::verif_hooks::call(&mut site);
+            site.z
+        };
         let z = pk.vk.domain.lagrange_from_vec(z);
 
         #[cfg(feature = "sanity-checks")]
diff --git a/halo2_proofs/src/plonk/permutation/prover.rs b/halo2_proofs/src/plonk/permutation/prover.rs
index 175a4a6..b2adbd6 100644
--- a/halo2_proofs/src/plonk/permutation/prover.rs
+++ b/halo2_proofs/src/plonk/permutation/prover.rs
@@ -162,6 +162,17 @@ impl Argument {
             for z in &mut z[params.n() as usize - blinding_factors..] {
                 *z = C::Scalar::random(&mut rng);
             }
+            #[cfg(verif_hooks)]
+            let z = {
+                let mut site = crate::verif_hooks::PermutationProduct {
+                    set: sets.len(),
+                    sets: (self.columns.len() + chunk_len - 1) / chunk_len,
+                    z: z.to_vec(),
+                    last: params.n() as usize - (blinding_factors + 1),
+                };
+                crate::verif_hooks::call(&mut site);
+                domain.lagrange_from_vec(site.z)
+            };
             // Set new last_z
             last_z = z[params.n() as usize - (blinding_factors + 1)];
 
diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index d66a488..e8fe367 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -28,6 +28,18 @@ pub struct ProverQuery<'com, C: CurveAffine> {
     pub(crate) blind: Blind<C::Scalar>,
 }
 
+#[cfg(verif_hooks)]
+impl<'com, C: CurveAffine> ProverQuery<'com, C> {
+    /// Create a new prover query (for the verification harness).
+    pub fn new(
+        point: C::Scalar,
+        poly: &'com Polynomial<C::Scalar, Coeff>,
+        blind: Blind<C::Scalar>,
+    ) -> Self {
+        ProverQuery { point, poly, blind }
+    }
+}
+
 #[doc(hidden)]
 #[derive(Copy, Clone)]
 pub struct PolynomialPointer<'com, C: CurveAffine> {
diff --git a/halo2_proofs/src/verif_hooks.rs b/halo2_proofs/src/verif_hooks.rs
new file mode 100644
index 0000000..ab8670a
--- /dev/null
+++ b/halo2_proofs/src/verif_hooks.rs
@@ -0,0 +1,63 @@
+//! Fault injection points for the verification harness: compiled only with
+//! `--cfg verif_hooks`. The harness installs a handler that may replace what the
+//! prover is about to commit to, to observe whether the verifier notices.
+
+extern crate std;
+
+use alloc::{boxed::Box, vec::Vec};
+use core::any::Any;
+use core::cell::RefCell;
+
+/// The permuted columns of one lookup argument, before they are committed to.
+#[derive(Debug)]
+pub struct LookupPermuted<F> {
+    /// Number of rows the argument applies to.
+    pub usable_rows: usize,
+    /// Compressed input expression.
+    pub input: Vec<F>,
+    /// Compressed table expression.
+    pub table: Vec<F>,
+    /// The permuted columns; `None` if the prover refuses the lookup.
+    pub permuted: Option<(Vec<F>, Vec<F>)>,
+}
+
+/// The grand product of one lookup argument.
+#[derive(Debug)]
+pub struct LookupProduct<F> {
+    /// Values over the domain.
+    pub z: Vec<F>,
+    /// Row of the final value.
+    pub last: usize,
+}
+
+/// The grand product of one column set of the permutation argument.
+#[derive(Debug)]
+pub struct PermutationProduct<F> {
+    /// Index of the column set.
+    pub set: usize,
+    /// Number of column sets.
+    pub sets: usize,
+    /// Values over the domain.
+    pub z: Vec<F>,
+    /// Row of the final value.
+    pub last: usize,
+}
+
+type Handler = Box<dyn FnMut(&mut dyn Any)>;
+
+std::thread_local! {
+    static HANDLER: RefCell<Option<Handler>> = RefCell::new(None);
+}
+
+/// Installs (or removes) the handler of this thread.
+pub fn set(handler: Option<Handler>) {
+    HANDLER.with(|h| *h.borrow_mut() = handler);
+}
+
+pub(crate) fn call(data: &mut dyn Any) {
+    HANDLER.with(|h| {
+        if let Some(f) = h.borrow_mut().as_mut() {
+            f(data)
+        }
+    });
+}
-- 
2.43.0


From d127426e052217593d224885568c80079664b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:41 +0000
Subject: [PATCH 20/21] Verification hook: Sinsemilla domain from a given Q
 (cfg verif_hooks)

---
 halo2_gadgets/src/sinsemilla/primitives.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/halo2_gadgets/src/sinsemilla/primitives.rs b/halo2_gadgets/src/sinsemilla/primitives.rs
index f960e1a..6ad575a 100644
--- a/halo2_gadgets/src/sinsemilla/primitives.rs
+++ b/halo2_gadgets/src/sinsemilla/primitives.rs
@@ -172,6 +172,13 @@ impl HashDomain {
         HashDomain { Q }
     }
 
+    /// Constructs a `HashDomain` from a given `Q`, for the verification harness.
+    #[cfg(verif_hooks)]
+    #[allow(non_snake_case)]
+    pub fn verif_from_q(Q: pallas::Point) -> Self {
+        HashDomain { Q }
+    }
+
     /// Returns the Sinsemilla $Q$ constant for this domain.
     #[cfg(any(test, feature = "test-dependencies"))]
     #[cfg_attr(docsrs, doc(cfg(feature = "test-dependencies")))]
-- 
2.43.0


From ec219281ea247cb9e75dc0c05ccbdbaeba36356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 21/21] fix: variable-base mul ties its incomplete additions to
 the base

The x_p, y_p cells of the incomplete double-and-add rows were only
constrained to be constant over the rows; nothing tied them to the base
point, so a prover could add another point in 251 of the 255 steps.
---
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index 9d99759..f0c85c8 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -305,8 +305,18 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             zs.push(Z(z.clone()));
 
             // Assign `x_p`, `y_p`
-            region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
-            region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            //
+            // The base is copied in on the first row; q_mul_2 then keeps it constant
+            // over the remaining rows.
+            if row == 0 {
+                base.x
+                    .copy_advice(|| "x_p", region, self.double_and_add.x_p, row + offset)?;
+                base.y
+                    .copy_advice(|| "y_p", region, self.y_p, row + offset)?;
+            } else {
+                region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
+                region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            }
 
             // If the bit is set, use `y`; if the bit is not set, use `-y`
             let y_p = y_p
-- 
2.43.0

