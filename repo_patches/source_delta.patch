From 2c6ca265d7c230211dab319bdff63da493b54020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 01/26] fix: range check the difference of SLT operands

Only BLT and BGE range checked it, so a prover could choose the result of SLT
and SLTU.
---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..f1ba42d 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -307,7 +307,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From 5d39ef592f907f2a7f52005875f81f376d0a5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 02/26] fix: require the quotient's sign to be binary

With another value, a prover could claim other quotients.
---
 circuits/src/cpu/div.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/cpu/div.rs b/circuits/src/cpu/div.rs
index 65a5468..b568f1d 100644
--- a/circuits/src/cpu/div.rs
+++ b/circuits/src/cpu/div.rs
@@ -50,6 +50,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     );
 
     // We also need to make sure quotient_sign and remainder_sign are set correctly.
+    cb.always(quotient_sign.is_binary());
     cb.always(remainder_sign.is_binary());
     cb.always(dividend_sign.is_binary());
 
-- 
2.43.0


From 322bc4794bc8970948d7660d1cce0b084555ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 03/26] fix: range check the operand difference of taken BLT
 rows

BltTaken declares a range check of op2 - op1 - 1, but the range check lookup
never included it, so a prover could take a BLTU branch with op1 >= op2.
---
 circuits/src/stark/mozak_stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..b32cd8b 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -708,6 +708,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From 38515a689b65ba16b336899f6da1169d3f999fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 04/26] fix: constrain the cubes used by the Poseidon2 S-boxes

The S-box multiplies its input by the square of a helper column meant to hold
the input's cube, but nothing tied the column to the input, so any output
could be claimed for any input.
---
 circuits/src/poseidon2/stark.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..1994dc0 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -33,9 +33,13 @@ where
 }
 
 // degree: 3
-fn sbox_p<'a, V>(x: &mut Expr<'a, V>, x_qube: &Expr<'a, V>)
-where
+fn sbox_p<'a, V>(
+    x: &mut Expr<'a, V>,
+    x_qube: &Expr<'a, V>,
+    constraints: &mut ConstraintBuilder<Expr<'a, V>>,
+) where
     V: Copy, {
+    constraints.always(*x * *x * *x - *x_qube);
     *x *= *x_qube * *x_qube;
 }
 
@@ -152,6 +156,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
             sbox_p(
                 item,
                 &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
+                &mut constraints,
             );
         }
         matmul_external12(&mut state);
@@ -164,7 +169,11 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        sbox_p(
+            &mut state[0],
+            &lv.s_box_input_qube_partial_rounds[i],
+            &mut constraints,
+        );
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -184,6 +193,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
             sbox_p(
                 item,
                 &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
+                &mut constraints,
             );
         }
         matmul_external12(&mut state);
-- 
2.43.0


From b83b1538b87c8153a38a6f0abe56375559ff229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 05/26] fix: constrain the next pc of environment calls

Nothing tied new_pc of an ECALL row to its pc, so a prover could jump anywhere
after any environment call.
---
 circuits/src/cpu/ecall.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..0e436e9 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -19,6 +19,11 @@ pub(crate) fn constraints<'a, P: Copy>(
     }
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
+    // A halt stays at its own pc, every other environment call moves on to the
+    // next instruction.
+    cb.always(
+        lv.inst.ops.ecall * (lv.new_pc - (lv.inst.pc + 4)) + lv.ecall_selectors.is_halt * 4,
+    );
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
-- 
2.43.0


From 86778bceb6cbd851460b7563caa0abcd5ee5745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 06/26] fix: tie the registers of LW and SW to the memory value

A full word load could write any value to its destination, and a full word
store could put any value into memory.
---
 circuits/src/cpu/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..ccc1fc3 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -27,6 +27,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     // `mem_access_raw` in case `dst_sign_bit` is set
     cb.always(lv.inst.ops.lh * (lv.dst_value - (lv.mem_value_raw + lv.dst_sign_bit * 0xFFFF_0000)));
 
+    // Full words are transferred as they are.
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
+    cb.always(lv.inst.ops.sw * (lv.mem_value_raw - lv.op1_value));
+
     let and_gadget = and_gadget(&lv.xor);
     // SB/SH uses only least significant 8/16 bit from RS1 register.
     cb.always((lv.inst.ops.sb + lv.inst.ops.sh) * (and_gadget.input_a - lv.op1_value));
-- 
2.43.0


From 35ee523acdfae4e043bedb551a65ed711ea4be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 07/26] fix: constrain the next pc on the last row of the CPU
 table, too

Row order of the CPU table means nothing, so a prover could put any straight
line instruction or JALR on the last row and continue anywhere.
---
 circuits/src/cpu/jalr.rs  | 2 +-
 circuits/src/cpu/stark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 2b31e23..e2dcc41 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -28,7 +28,7 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     // Check: the wrapped op1, op2 sum is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-    cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
+    cb.always(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
 
 #[cfg(test)]
diff --git a/circuits/src/cpu/stark.rs b/circuits/src/cpu/stark.rs
index d34744c..229bb64 100644
--- a/circuits/src/cpu/stark.rs
+++ b/circuits/src/cpu/stark.rs
@@ -34,7 +34,7 @@ impl<F, const D: usize> HasNamedColumns for CpuStark<F, D> {
 /// Ensure that if opcode is straight line, then program counter is incremented
 /// by 4.
 fn pc_ticks_up<'a, P: Copy>(lv: &CpuState<Expr<'a, P>>, cb: &mut ConstraintBuilder<Expr<'a, P>>) {
-    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
+    cb.always(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
 }
 
 /// Enforce that selectors of opcode are one-hot encoded.
-- 
2.43.0


From 85613a825a4804b1cdd1d738082f821ef96fcadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 08/26] fix: require the signedness columns of the CPU table to
 be binary

The instruction encoding is only unique for columns in range.
---
 circuits/src/cpu/memory.rs            | 1 +
 circuits/src/cpu/signed_comparison.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index ccc1fc3..7ad84b3 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -15,6 +15,7 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    cb.always(lv.inst.is_dst_signed.is_binary());
     cb.always(lv.dst_sign_bit.is_binary());
     // When dst is not signed as per instruction semantics, dst_sign_bit must be 0.
     cb.always((1 - lv.inst.is_dst_signed) * lv.dst_sign_bit);
diff --git a/circuits/src/cpu/signed_comparison.rs b/circuits/src/cpu/signed_comparison.rs
index 6c4130b..2a6f058 100644
--- a/circuits/src/cpu/signed_comparison.rs
+++ b/circuits/src/cpu/signed_comparison.rs
@@ -27,6 +27,8 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    cb.always(lv.inst.is_op1_signed.is_binary());
+    cb.always(lv.inst.is_op2_signed.is_binary());
     cb.always(lv.op1_sign_bit.is_binary());
     cb.always(lv.op2_sign_bit.is_binary());
 
-- 
2.43.0


From dc914c43231a426615006dfb99cccdcee17de58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 09/26] fix: constrain the sign bit of LB and LH

The range check covered the loaded value whatever the sign bit was, so a prover
could choose whether to sign extend.
---
 circuits/src/cpu/columns.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index f1ba42d..171d5ad 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -321,8 +321,19 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // `mem_value_raw` fits into 8 or 16 bits. Offset by half the range for signed
+        // loads it still does, exactly if `dst_sign_bit` is its top bit. Scaled up, a u32
+        // range check decides that.
+        (
+            (CPU.mem_value_raw + CPU.inst.is_dst_signed * (1 << 7) - CPU.dst_sign_bit * (1 << 8))
+                * (1 << 24),
+            ops.lb,
+        ),
+        (
+            (CPU.mem_value_raw + CPU.inst.is_dst_signed * (1 << 15) - CPU.dst_sign_bit * (1 << 16))
+                * (1 << 16),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
-- 
2.43.0


From 498e7bf4ad862b1f057da1c981aeb2d1a27df53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 10/26] fix: encode the signedness of loads in the program ROM

LB and LBU (LH and LHU) had the same encoding, so a prover could execute one
for the other.
---
 circuits/src/cpu/columns.rs     | 2 +-
 circuits/src/program/columns.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 171d5ad..3a1b2d1 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -461,7 +461,7 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op2_signed + inst.is_dst_signed * 2,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..ea95e94 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -42,7 +42,7 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                 [
                     ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op2_signed + inst.is_dst_signed.double(),
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-- 
2.43.0


From 94a696d982916f992dc8464dbf791f7c6af7b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 11/26] fix: initialize each register exactly once

The register table could start without initialization, and could initialize a
register again between its uses.
---
 circuits/src/register/general/stark.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index bb36756..baacc8b 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -78,6 +78,12 @@ fn generate_constraints<'a, T: Copy>(
     // Constraint 5: Address either stays the same or increments by 1.
     constraints.transition((nv.addr - lv.addr) * (nv.addr - lv.addr - 1));
 
+    // A register is initialized before it is used, and only then: the trace
+    // starts with an initialization, and past its own initialization the only
+    // one that may follow is the next register's.
+    constraints.first_row(lv.ops.is_init - 1);
+    constraints.transition(nv.ops.is_init * (nv.addr - lv.addr - 1) * (1 - lv.ops.is_init));
+
     // Constraint 6: addresses go from 1 to 31.
     constraints.first_row(lv.addr - 1);
     constraints.last_row(lv.addr - 31);
-- 
2.43.0


From fc35e5ebf4b32d518bc0088dc4b7e3f2834a545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 12/26] fix: look up the buffer address of event tape reads

All other tapes read their buffer address from A1, the event tape accepted any.
---
 circuits/src/storage_device/columns.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..edcad9a 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,7 +8,8 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable,
     StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From 29a7b0ff8816978ffb12358f966ed1d456bb744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 13/26] fix: bind every storage device memory row to its call

Memory rows on the first row of a table, or after a transfer that is complete,
were not tied to any call, so a prover could store any value to any address.
The constraint that followed also rejected an honest read of two or more bytes
after a read of none.
---
 circuits/src/storage_device/stark.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..1acd9fb 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -70,9 +70,18 @@ fn generate_constraints<'a, T: Copy>(
     //  1) is_binary(storage_device or memory)
     //  2) if nv.is_storage_device() == 1: lv.size == 0
 
-    // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
+    // The helper column means what its name says.
+    constraints.always(
+        lv.is_lv_and_nv_are_memory_rows - lv.ops.is_memory_store * nv.ops.is_memory_store,
+    );
+    // Every memory row belongs to the call that started the transfer: it follows
+    // another row of that call, at the same clk, with one byte less to go.
+    constraints.first_row(lv.ops.is_memory_store);
+    constraints.transition(nv.ops.is_memory_store * (1 - lv.is_executed()));
+    constraints.transition(nv.ops.is_memory_store * (nv.clk - lv.clk));
+    constraints.transition(nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
+    // A transfer ends when there is nothing to go, and not before.
+    constraints.always(lv.size * (1 - nv.ops.is_memory_store));
 
     constraints
 }
-- 
2.43.0


From 4747f5e18d95a4796021912810ff6048abd9f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 14/26] fix: require the filter columns of Add and BltTaken to
 be binary

They filter lookups, where a row with a multiplicity of -1 cancels another.
---
 circuits/src/ops/add/stark.rs       |  2 +
 circuits/src/ops/blt_taken/stark.rs | 79 +++++++++++++++++++++++++++--
 2 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/circuits/src/ops/add/stark.rs b/circuits/src/ops/add/stark.rs
index f4a19e9..27945f1 100644
--- a/circuits/src/ops/add/stark.rs
+++ b/circuits/src/ops/add/stark.rs
@@ -34,6 +34,8 @@ fn generate_constraints<'a, T: Copy, U>(
     let lv = vars.local_values;
     let mut constraints = ConstraintBuilder::default();
 
+    constraints.always(lv.is_running.is_binary());
+
     let added = lv.op1_value + lv.op2_value + lv.inst.imm_value;
     let wrapped = added - (1 << 32);
 
diff --git a/circuits/src/ops/blt_taken/stark.rs b/circuits/src/ops/blt_taken/stark.rs
index 15f6b8e..3369c04 100644
--- a/circuits/src/ops/blt_taken/stark.rs
+++ b/circuits/src/ops/blt_taken/stark.rs
@@ -1,7 +1,78 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::BltTaken;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
 
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type BltTakenStark<F, const D: usize> =
-    Unstark<F, D, BltTaken<F>, { BltTaken::<()>::NUMBER_OF_COLUMNS }>;
+pub struct BltTakenStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for BltTakenStark<F, D> {
+    type Columns = BltTaken<F>;
+}
+
+const COLUMNS: usize = BltTaken::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy, U>(
+    vars: &StarkFrameTyped<BltTaken<Expr<'a, T>>, Vec<U>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    // The instruction, register and range check lookups are filtered by this
+    // column: a row counts once or not at all.
+    constraints.always(lv.is_running.is_binary());
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for BltTakenStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+  where
+      FE: FieldExtension<D2, BaseField = F>,
+      P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        constraint_consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let expr_builder = ExprBuilder::default();
+        let vars = expr_builder.to_typed_starkframe(vars);
+        let constraints = generate_constraints(&vars);
+        build_packed(constraints, constraint_consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        circuit_builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        constraint_consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let expr_builder = ExprBuilder::default();
+        let constraints = generate_constraints(&expr_builder.to_typed_starkframe(vars));
+        build_ext(constraints, circuit_builder, constraint_consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
-- 
2.43.0


From f9df8c78765d37216acd07d66e161876caf762ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 15/26] fix: bind the rows of a sponge to each other

A sponge could stop without generating output, one could start from nothing
with any capacity at any clk, and the address for the output was free on all
rows but the first. So a prover could skip or forge hashes and write them
anywhere.
---
 circuits/src/poseidon2_sponge/stark.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/src/poseidon2_sponge/stark.rs b/circuits/src/poseidon2_sponge/stark.rs
index e16fdc4..cebd8b4 100644
--- a/circuits/src/poseidon2_sponge/stark.rs
+++ b/circuits/src/poseidon2_sponge/stark.rs
@@ -69,6 +69,11 @@ fn generate_constraints<'a, T: Copy>(
         (1 - vars.ops.is_init_permute) * (vars.ops.is_init_permute + vars.ops.is_permute)
     };
 
+    // A sponge goes on until it generates output, and only an unfinished sponge
+    // goes on.
+    constraints.always((1 - lv.gen_output) * is_exe * (1 - nv.ops.is_permute));
+    constraints.always(nv.ops.is_permute * (1 - is_exe));
+
     // First row must be init permute or dummy row.
     constraints.first_row(is_init_or_dummy(&lv));
     // if row generates output then next row can be dummy or start of next hashing
@@ -76,6 +81,8 @@ fn generate_constraints<'a, T: Copy>(
 
     // Clk should not change within a sponge
     constraints.transition(nv.ops.is_permute * (lv.clk - nv.clk));
+    // And neither does the address to write the output to.
+    constraints.transition(nv.ops.is_permute * (lv.output_addr - nv.output_addr));
 
     let not_last_sponge = (1 - lv.gen_output) * (lv.ops.is_permute + lv.ops.is_init_permute);
     // if current row consumes input and its not last sponge then next row must have
-- 
2.43.0


From 22a2a943b014d1b812fb9fc63812df9b91747520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 16/26] fix: check the limbs of every row of the range check
 table

Limbs counted by the row's multiplicity only, which a prover can choose: two
rows with opposite multiplicities cancel each other's limbs, so any value could
pass.
---
 circuits/src/rangecheck/columns.rs       | 12 ++++++++++++
 circuits/src/rangecheck_u8/columns.rs    |  9 +++++++++
 circuits/src/rangecheck_u8/generation.rs |  9 +++++++++
 circuits/src/stark/mozak_stark.rs        | 14 +++++++++++++-
 4 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/circuits/src/rangecheck/columns.rs b/circuits/src/rangecheck/columns.rs
index 7f78192..e184d1a 100644
--- a/circuits/src/rangecheck/columns.rs
+++ b/circuits/src/rangecheck/columns.rs
@@ -1,5 +1,6 @@
 use crate::columns_view::{columns_view_impl, make_col_map};
 use crate::cross_table_lookup::Column;
+use crate::linear_combination_typed::ColumnWithTypedInput;
 use crate::stark::mozak_stark::{RangeCheckTable, TableWithTypedOutput};
 
 #[repr(C)]
@@ -36,3 +37,14 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         .map(|limb| RangeCheckTable::new(RangeCheckCtl(COL_MAP.limbs[limb]), COL_MAP.multiplicity))
         .collect()
 }
+
+/// Every row's limbs are bytes, whatever its `multiplicity`. That's a column a
+/// prover can choose: rows with opposite multiplicities would cancel their
+/// limbs, if those counted by it only.
+#[must_use]
+pub fn limbs_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>> {
+    COL_MAP
+        .limbs
+        .map(|limb| RangeCheckTable::new(RangeCheckCtl(limb), ColumnWithTypedInput::constant(1)))
+        .into()
+}
diff --git a/circuits/src/rangecheck_u8/columns.rs b/circuits/src/rangecheck_u8/columns.rs
index 15b558d..525ea43 100644
--- a/circuits/src/rangecheck_u8/columns.rs
+++ b/circuits/src/rangecheck_u8/columns.rs
@@ -12,6 +12,10 @@ pub struct RangeCheckU8<T> {
     /// The frequencies for which the accompanying value occur in
     /// the trace. This is m(x) in the paper.
     pub multiplicity: T,
+
+    /// How many limbs of the rows of the range check table have this value, no
+    /// matter how often those rows are used.
+    pub limb_multiplicity: T,
 }
 columns_view_impl!(RangeCheckU8);
 make_col_map!(RangeCheckU8);
@@ -20,3 +24,8 @@ make_col_map!(RangeCheckU8);
 pub fn lookup() -> TableWithTypedOutput<RangeCheckCtl<Column>> {
     RangeCheckU8Table::new(RangeCheckCtl(COL_MAP.value), COL_MAP.multiplicity)
 }
+
+#[must_use]
+pub fn lookup_for_limbs() -> TableWithTypedOutput<RangeCheckCtl<Column>> {
+    RangeCheckU8Table::new(RangeCheckCtl(COL_MAP.value), COL_MAP.limb_multiplicity)
+}
diff --git a/circuits/src/rangecheck_u8/generation.rs b/circuits/src/rangecheck_u8/generation.rs
index b04cc38..3ad4831 100644
--- a/circuits/src/rangecheck_u8/generation.rs
+++ b/circuits/src/rangecheck_u8/generation.rs
@@ -15,6 +15,10 @@ pub(crate) fn generate_rangecheck_u8_trace<F: RichField>(
     rangecheck_trace: &[RangeCheckColumnsView<F>],
     memory_trace: &[Memory<F>],
 ) -> Vec<RangeCheckU8<F>> {
+    let limbs = rangecheck_trace
+        .iter()
+        .flat_map(|row| row.limbs)
+        .into_group_map_by(|limb| limb.to_noncanonical_u64());
     RangeCheckU8LookupTable::lookups()
         .looking_tables
         .into_iter()
@@ -32,6 +36,11 @@ pub(crate) fn generate_rangecheck_u8_trace<F: RichField>(
         .map(|(value, mults)| RangeCheckU8 {
             value,
             multiplicity: mults.into_iter().sum(),
+            limb_multiplicity: F::from_canonical_usize(
+                limbs
+                    .get(&value.to_noncanonical_u64())
+                    .map_or(0, std::vec::Vec::len),
+            ),
         })
         .collect()
 }
diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index b32cd8b..f9ce69c 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -74,7 +74,7 @@ use crate::{
     rangecheck, register, storage_device, xor,
 };
 
-const NUM_CROSS_TABLE_LOOKUP: usize = 18;
+const NUM_CROSS_TABLE_LOOKUP: usize = 19;
 const NUM_PUBLIC_SUB_TABLES: usize = 2;
 const NUM_PUBLIC_TABLES: usize = 2;
 pub const PUBLIC_TABLE_KINDS: [TableKind; NUM_PUBLIC_TABLES] =
@@ -460,6 +460,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Default for MozakStark<F, D>
                 IntoMemoryTable::lookups(),
                 MemoryInitMemoryTable::lookups(),
                 RangeCheckU8LookupTable::lookups(),
+                RangeCheckLimbsLookupTable::lookups(),
                 HalfWordMemoryCpuTable::lookups(),
                 FullWordMemoryCpuTable::lookups(),
                 RegisterLookups::lookups(),
@@ -829,6 +830,17 @@ impl Lookups for RangeCheckU8LookupTable {
     }
 }
 
+pub struct RangeCheckLimbsLookupTable;
+impl Lookups for RangeCheckLimbsLookupTable {
+    type Row = RangeCheckCtl<Column>;
+
+    fn lookups_with_typed_output() -> CrossTableLookupWithTypedOutput<Self::Row> {
+        CrossTableLookupWithTypedOutput::new(rangecheck::columns::limbs_looking(), vec![
+            crate::rangecheck_u8::columns::lookup_for_limbs(),
+        ])
+    }
+}
+
 pub struct HalfWordMemoryCpuTable;
 
 impl Lookups for HalfWordMemoryCpuTable {
-- 
2.43.0


From d8fed8873d8c2681a4a7e80fcf066c9acca34745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:01 +0000
Subject: [PATCH 17/26] fix: give the immediate its own column in the program
 ROM

The immediate of a CPU row is not range checked where no operation needs it, so
packed together with the other fields it could make up for any of them: a
prover could execute, say, a branch not taken in place of any instruction.
---
 circuits/src/cpu/columns.rs       | 10 ++++------
 circuits/src/ops/add/mod.rs       | 11 ++++-------
 circuits/src/ops/blt_taken/mod.rs | 11 ++++-------
 circuits/src/program/columns.rs   |  5 +++--
 4 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 3a1b2d1..a078207 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -452,11 +452,9 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             //   bits.
             // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-            // - imm_value: This field requires 32 bits.
-            // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
-            // size of the Goldilocks field.
-            // Note: The imm_value field, having more than 5 bits, must be positioned as the last
-            // column in the list to ensure the correct functioning of 'reduce_with_powers'.
+            // Therefore, the total bit requirement is 5 * 6 = 30 bits.
+            // The 32 bits of the immediate have a column of their own: nothing else keeps a
+            // prover from choosing an `imm_value` that makes up for other fields.
             inst_data: ColumnWithTypedInput::reduce_with_powers(
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
@@ -465,10 +463,10 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-                    inst.imm_value,
                 ],
                 1 << 5,
             ),
+            imm_value: inst.imm_value,
         },
         CPU.is_running(),
     )
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 2d9a71c..722c5fc 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -112,12 +112,9 @@ pub mod columns {
                 //   5 bits.
                 // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
+                // Therefore, the total bit requirement is 5 * 6 = 30 bits.
+                // The 32 bits of the immediate have a column of their own: nothing else keeps a
+                // prover from choosing an `imm_value` that makes up for other fields.
                 inst_data: ColumnWithTypedInput::reduce_with_powers(
                     [
                         // TODO: don't hard-code ADD like this.
@@ -129,10 +126,10 @@ pub mod columns {
                         inst.rs1_selected,
                         inst.rs2_selected,
                         inst.rd_selected,
-                        inst.imm_value,
                     ],
                     1 << 5,
                 ),
+                imm_value: inst.imm_value,
             },
             ADD.is_running,
         )
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 1b931a0..d94fcda 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -104,12 +104,9 @@ pub mod columns {
                 //   5 bits.
                 // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
+                // Therefore, the total bit requirement is 5 * 6 = 30 bits.
+                // The 32 bits of the immediate have a column of their own: nothing else keeps a
+                // prover from choosing an `imm_value` that makes up for other fields.
                 inst_data: ColumnWithTypedInput::reduce_with_powers(
                     [
                         // TODO: don't hard-code BLTU like this.
@@ -121,10 +118,10 @@ pub mod columns {
                         inst.rs1_selected,
                         inst.rs2_selected,
                         ColumnWithTypedInput::constant(0),
-                        inst.imm_value,
                     ],
                     1 << 5,
                 ),
+                imm_value: inst.imm_value,
             },
             COL_MAP.is_running,
         )
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index ea95e94..669ac34 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -20,9 +20,10 @@ pub struct ProgramRom<T> {
     /// `inst_data` include:
     /// - ops: This is an internal opcode, not the opcode from RISC-V
     /// - `is_op1_signed` and `is_op2_signed`
+    /// - `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
-    /// - `imm_value`
     pub inst_data: T,
+    pub imm_value: T,
 }
 
 impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
@@ -46,10 +47,10 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-                    inst.imm_value,
                 ],
                 1 << 5,
             ),
+            imm_value: inst.imm_value,
         }
     }
 }
-- 
2.43.0


From ec749cae76d3c8880b98ff2284c6d1f527a728b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 18/26] fix: look up the masking xor of SB and SH

Without the lookup the byte or half word that a narrow store writes was not
tied to the register it stores.
---
 circuits/src/cpu/columns.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a078207..81139f9 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -422,7 +422,8 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        // `SB` and `SH` mask the value they store.
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
-- 
2.43.0


From ef4d72c5fbd60235ca5c4f16178866bb3c388f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 19/26] fix: merkleize addresses that differ in their top bit

Such leaves merge 64 levels up; shifting a u64 by 64 panics in debug builds
and never terminates in release builds.
---
 sdk/src/common/merkle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..1fe3f32 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -17,16 +17,20 @@ pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Ha
     hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
 }
 
+/// The position `height_incr` levels up from `addr`. Addresses that differ in
+/// their most significant bit only meet at the root, all 64 levels up.
+fn ancestor(addr: u64, height_incr: u32) -> u64 { addr.checked_shr(height_incr).unwrap_or(0) }
+
 // Merkles all the closest relatives once, returns the next merge increment
 fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u32 {
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = ancestor(left.0, height_incr);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = ancestor(right.0, height_incr);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +42,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = ancestor(right.0, height_incr);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 40fb781988cc4d6b249343b0e22784ef39e0bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 20/26] fix: input tape reads near the end and past a forward
 seek

A read that asks for more than remains panicked on the slice lengths instead
of being short, and a read after seeking past what was fetched underflowed.
---
 sdk/src/mozakvm/inputtape.rs | 59 ++++++++++++++----------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..7f11892 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -25,48 +25,35 @@ impl std::io::Read for RandomAccessEcallTape {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // While we want the whole buffer to be filled, it may
         // not be possible due to us reaching the end of tape
-        // at times. Hence `required_bytes` encodes the desired
-        // request, while `serviced_bytes` encode the actual
+        // at times. Hence `serviced_bytes` encodes the actual
         // serviced len.
-        let required_bytes = buf.len();
-        let mut serviced_bytes = required_bytes;
-        if (self.read_offset + required_bytes) > self.size_hint {
-            serviced_bytes = self.size_hint - self.read_offset;
-        }
+        let serviced_bytes = buf.len().min(self.size_hint - self.read_offset);
+        let end = self.read_offset + serviced_bytes;
 
         // In cases where `Seek` was used, we may be reading from
         // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
+        // bytes already from the `ECALL` mechanism. The tape itself
+        // is sequential: whatever lies between the bytes consumed so
+        // far and the end of this read has to be fetched, including
+        // bytes skipped by `Seek`.
+        let old_len = self.internal_buf.len();
+        if end > old_len {
+            let remaining_from_ecall = end - old_len;
+            self.internal_buf.resize(end, 0);
+
+            // TODO: maybe move out this function into `ecall.rs` somehow?
+            unsafe {
+                core::arch::asm!(
+                    "ecall",
+                    in ("a0") self.ecall_id,
+                    in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
+                    in ("a2") remaining_from_ecall,
+                );
+            };
         }
 
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
-        let old_len = self.internal_buf.len();
-        self.internal_buf.resize(old_len + remaining_from_ecall, 0);
-
-        // TODO: maybe move out this function into `ecall.rs` somehow?
-        unsafe {
-            core::arch::asm!(
-                "ecall",
-                in ("a0") self.ecall_id,
-                in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
-                in ("a2") remaining_from_ecall,
-            );
-        };
-
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
-        self.read_offset += serviced_bytes;
+        buf[..serviced_bytes].clone_from_slice(&self.internal_buf[self.read_offset..end]);
+        self.read_offset = end;
 
         Ok(serviced_bytes)
     }
-- 
2.43.0


From 7ee80543d11d275438781a7b03e66e68772ce0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 21/26] fix: seek on input tapes as std::io::Seek defines it

Positions at or past the end went one byte short of it, offsets from the end
were counted backwards, and negative relative offsets panicked.
---
 sdk/src/mozakvm/inputtape.rs | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 7f11892..849b53e 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -62,29 +62,17 @@ impl std::io::Read for RandomAccessEcallTape {
 #[cfg(feature = "stdread")]
 impl std::io::Seek for RandomAccessEcallTape {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Start(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset = usize::try_from(x).unwrap();
-                },
-            std::io::SeekFrom::End(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = 0;
-                } else {
-                    self.read_offset = self.size_hint - usize::try_from(x).unwrap() - 1;
-                },
-            std::io::SeekFrom::Current(x) => {
-                if x + i64::try_from(self.read_offset).unwrap()
-                    >= self.size_hint.try_into().unwrap()
-                {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset += usize::try_from(x).unwrap();
-                }
-            }
+        // Positions past the end stop at the end of the tape
+        let (base, offset) = match pos {
+            std::io::SeekFrom::Start(x) => (0, i128::from(x)),
+            std::io::SeekFrom::End(x) => (self.size_hint, i128::from(x)),
+            std::io::SeekFrom::Current(x) => (self.read_offset, i128::from(x)),
+        };
+        let target = base as i128 + offset;
+        if target < 0 {
+            return Err(std::io::ErrorKind::InvalidInput.into());
         }
+        self.read_offset = usize::try_from(target).map_or(self.size_hint, |x| x.min(self.size_hint));
         Ok(self.read_offset as u64)
     }
 }
-- 
2.43.0


From fdc4de25127bc72c6b758a2989ed19b3cb9aa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 22/26] fix: order state addresses by their position in the
 tree

Events were sorted by address bytes, first byte first, while merkleize takes
addresses as little-endian numbers and requires them to be sorted.
---
 sdk/src/common/types/state_address.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/src/common/types/state_address.rs b/sdk/src/common/types/state_address.rs
index 83fe02a..2a9d24a 100644
--- a/sdk/src/common/types/state_address.rs
+++ b/sdk/src/common/types/state_address.rs
@@ -10,8 +10,6 @@ pub const STATE_TREE_DEPTH: usize = 8;
     Hash,
     PartialEq,
     Eq,
-    PartialOrd,
-    Ord,
     rkyv::Archive,
     rkyv::Serialize,
     rkyv::Deserialize,
@@ -25,6 +23,18 @@ pub struct StateAddress(
     pub  [u8; STATE_TREE_DEPTH],
 );
 
+/// Ordered by the position in the state tree, which is the little-endian
+/// value of the address. Events are merkleized in this order.
+impl Ord for StateAddress {
+    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
+        u64::from_le_bytes(self.0).cmp(&u64::from_le_bytes(other.0))
+    }
+}
+
+impl PartialOrd for StateAddress {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
+}
+
 impl std::ops::Deref for StateAddress {
     type Target = [u8; STATE_TREE_DEPTH];
 
-- 
2.43.0


From 41023c48af4e1d454006790e7a2d1a7875d72788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:58 +0000
Subject: [PATCH 23/26] fix: load RWX segments into read-write memory

---
 runner/src/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..d19acc7 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -170,7 +170,7 @@ impl Program {
         ));
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| flags & (elf::abi::PF_R | elf::abi::PF_W) == elf::abi::PF_R | elf::abi::PF_W,
             input,
             &segments,
         ));
-- 
2.43.0


From 0f48d98b4765d42eba8d7fe77ef1ce422f373faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:58 +0000
Subject: [PATCH 24/26] fix: load only the loadable segments of an ELF file

---
 runner/src/elf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index d19acc7..81d5dbd 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -200,6 +200,9 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            // Only these are part of the process image; eg notes, RISC-V attributes or the
+            // TLS template are not.
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From eeae4f82b709fa8cc8a414435a2428996203aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:54 +0000
Subject: [PATCH 25/26] fix: generate a valid row for the division of -31 by -1

`-2 ^ 31` is an exclusive or, -31: the special case meant for the overflow of
-2^31 / -1 gave the quotient of -31 / -1 the wrong sign, and no proof.
---
 circuits/src/cpu/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..7be5604 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -276,7 +276,7 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
+        if dividend_full_range == -(1 << 31) && divisor_full_range == -1 {
             // Special case for dividend == -2^31, divisor == -1:
             // quotient_sign == 1 (quotient = -2^31).
             row.skip_check_quotient_sign = F::ONE;
-- 
2.43.0


From 5521c3a6d8219ffe59ca8a5af153567969e4944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:56 +0000
Subject: [PATCH 26/26] fix: hash input at the end of the address space wraps
 instead of overflowing

---
 runner/src/poseidon2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
-- 
2.43.0

