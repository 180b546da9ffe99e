From 9a6585d1cc8932c1288f6be390c3e0dc0f683d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 01/35] fix: signed remainder of the minimum dividend in the
 PVM

REM_S_32 and REM_S_64 narrowed |MIN| before taking the remainder, which made
the intermediate negative and flipped the sign of the result.
---
 pvm/pvm-core/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/utils.rs b/pvm/pvm-core/src/utils.rs
index 3c1d8fd..bf96b4b 100644
--- a/pvm/pvm-core/src/utils.rs
+++ b/pvm/pvm-core/src/utils.rs
@@ -314,7 +314,7 @@ impl VMUtils {
             a
         } else {
             let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i64).abs() as i32) % ((b as i64).abs() as i32))
+            (sgn * ((a as i64).abs() % (b as i64).abs())) as i32
         }
     }
 
@@ -325,7 +325,7 @@ impl VMUtils {
             a
         } else {
             let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i128).abs() as i64) % ((b as i128).abs() as i64))
+            (sgn * ((a as i128).abs() % (b as i128).abs())) as i64
         }
     }
 }
-- 
2.43.0


From cfce5176d61a89c91feca80525da9fb89398f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 02/35] fix: decode PVM instructions from the zero-extended
 code

An instruction whose operands run past its skip distance or past the end of
the code indexed out of bounds, and a skip distance over 15 made the whole
program invalid.
---
 pvm/pvm-core/src/program/loader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index a1feab8..303c114 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -9,7 +9,7 @@ use bitvec::prelude::*;
 use fr_codec::prelude::*;
 use fr_pvm_types::{
     common::{MemAddress, RegValue},
-    constants::MAX_SKIP_DISTANCE,
+    constants::{MAX_INST_BLOB_LENGTH, MAX_SKIP_DISTANCE},
 };
 use tracing::Level;
 
@@ -157,7 +157,11 @@ impl ProgramLoader {
             let inst = if next_index > instructions.len() {
                 Instruction::trap()
             } else {
-                Instruction::from_inst_blob(&instructions[idx..next_index], idx as RegValue, skip)?
+                // Operands are read from the zero-extended code, regardless of the skip distance
+                let mut inst_blob = [0u8; MAX_INST_BLOB_LENGTH];
+                let blob_len = MAX_INST_BLOB_LENGTH.min(instructions.len() - idx);
+                inst_blob[..blob_len].copy_from_slice(&instructions[idx..idx + blob_len]);
+                Instruction::from_inst_blob(&inst_blob, idx as RegValue, skip)?
             };
             decoded_instructions.push(inst);
             let decoded_index = decoded_instructions.len() as u32;
-- 
2.43.0


From 73b5818ea1c5623580975149f3af01aca41077fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 03/35] fix: a terminator at code offset 0 also begins a new
 basic block after it

---
 pvm/pvm-core/src/program/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index 303c114..4dea3f8 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -92,7 +92,7 @@ impl ProgramLoader {
     fn set_basic_block_start_indices(program: &mut ProgramState) -> Result<(), VMCoreError> {
         program.basic_block_start_indices.set(0, true);
         let instructions_len = program.instructions.len();
-        for n in 1..instructions_len {
+        for n in 0..instructions_len {
             if program
                 .opcode_bitmask
                 .get(n)
-- 
2.43.0


From 1ee6d52cdadfb2dc77511b0cbfda9db91f885f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 04/35] fix: PVM memory accesses wrapping past the end of the
 address space panic

They reach into the forbidden low zone; they were reported as an internal
error, which aborted the whole invocation.
---
 pvm/pvm-core/src/state/memory.rs       | 12 +++++++++++-
 pvm/pvm-core/src/state/state_change.rs |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index bd31710..be87710 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -1,6 +1,6 @@
 use fr_pvm_types::{
     common::MemAddress,
-    constants::{INIT_ZONE_SIZE, PAGE_SIZE},
+    constants::{INIT_ZONE_SIZE, MEMORY_SIZE, PAGE_SIZE},
 };
 use std::ops::Range;
 use thiserror::Error;
@@ -264,6 +264,11 @@ impl Memory {
             .checked_add(length)
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // Accesses wrapping around the address space reach into the forbidden low zone
+        if end > MEMORY_SIZE {
+            return Err(MemoryError::Forbidden(address));
+        }
+
         if end > self.data.len() {
             return Err(MemoryError::OutOfRange(address));
         }
@@ -335,6 +340,11 @@ impl Memory {
             .checked_add(bytes.len())
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // Accesses wrapping around the address space reach into the forbidden low zone
+        if end > MEMORY_SIZE {
+            return Err(MemoryError::Forbidden(address));
+        }
+
         if end > self.data.len() {
             return Err(MemoryError::OutOfRange(address));
         }
diff --git a/pvm/pvm-core/src/state/state_change.rs b/pvm/pvm-core/src/state/state_change.rs
index 666c87a..9617f45 100644
--- a/pvm/pvm-core/src/state/state_change.rs
+++ b/pvm/pvm-core/src/state/state_change.rs
@@ -154,6 +154,9 @@ impl VMStateMutator {
                 .write_bytes(*buf_offset, write_data.as_slice())
             {
                 Ok(_) => {}
+                Err(MemoryError::Forbidden(address)) => {
+                    return Err(VMCoreError::ForbiddenMemZone(address))
+                }
                 Err(MemoryError::AccessViolation(address)) => {
                     return Err(VMCoreError::PageFault(VMUtils::page_start_address(address)))
                 }
-- 
2.43.0


From b55ee02ebf43885332eb9b979d3613c5d7e21326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 05/35] fix: do not truncate the host call identifier of ECALLI
 to one octet

---
 pvm/pvm-core/src/program/instruction/set.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 720e507..2e90592 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -172,10 +172,13 @@ impl InstructionSet {
         program_state: &ProgramState,
         ins: &Instruction,
     ) -> Result<SingleStepResult, VMCoreError> {
-        let imm_host_call_type = reg_to_u8(ins.imm1()?);
-        let exit_reason = ExitReason::HostCall(
-            HostCallType::from_u8(imm_host_call_type).ok_or(VMCoreError::InvalidHostCallType)?,
-        );
+        // Identifiers that do not fit in a single octet are not known host calls
+        let exit_reason = ExitReason::HostCall(match u8::try_from(ins.imm1()?) {
+            Ok(host_call_type) => {
+                HostCallType::from_u8(host_call_type).ok_or(VMCoreError::InvalidHostCallType)?
+            }
+            Err(_) => HostCallType::INVALID,
+        });
 
         Ok(SingleStepResult {
             exit_reason,
-- 
2.43.0


From 734a0c663370a1d86a2f4b921a470b92e640146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 06/35] fix: charge gas for the trap of a program counter off
 any instruction

---
 pvm/pvm-core/src/interpreter/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/interpreter/mod.rs b/pvm/pvm-core/src/interpreter/mod.rs
index 91dd8d9..900a26f 100644
--- a/pvm/pvm-core/src/interpreter/mod.rs
+++ b/pvm/pvm-core/src/interpreter/mod.rs
@@ -1,5 +1,6 @@
 use crate::{
     error::VMCoreError,
+    gas::GasCharger,
     program::{
         instruction::{opcode::Opcode as OP, set::InstructionSet as IS, Instruction},
         types::program_state::ProgramState,
@@ -9,7 +10,11 @@ use crate::{
         vm_state::VMState,
     },
 };
-use fr_pvm_types::{common::RegValue, constants::MAX_SKIP_DISTANCE, exit_reason::ExitReason};
+use fr_pvm_types::{
+    common::RegValue,
+    constants::{INST_BASE_GAS_CHARGE, MAX_SKIP_DISTANCE},
+    exit_reason::ExitReason,
+};
 use tracing::Level;
 
 #[derive(Debug)]
@@ -54,6 +59,10 @@ impl Interpreter {
             let program_state_ref: &ProgramState = program_state;
             let Some(inst) = program_state_ref.instruction_at(curr_pc as usize) else {
                 tracing::warn!("Ψ Panic: Failed to extract instruction. PC={curr_pc}");
+                // Equivalent to executing `TRAP`, which is charged as any other instruction
+                if GasCharger::apply_gas_cost(vm_state, INST_BASE_GAS_CHARGE)? < 0 {
+                    return Ok(ExitReason::OutOfGas);
+                }
                 return Ok(ExitReason::Panic);
             };
 
-- 
2.43.0


From 1898e260f284c0772861f9fbd0a9aaec89504481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 07/35] fix: sbrk sizes beyond 32 bits, and halting with an
 output address beyond 32 bits

---
 pvm/pvm-core/src/state/memory.rs | 14 ++++++++------
 pvm/pvm-interface/src/invoke.rs  |  5 ++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index be87710..4aa21b4 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -379,13 +379,15 @@ impl Memory {
 
     /// Expand the heap area for the `sbrk` instruction.
     pub fn expand_heap(&mut self, start: MemAddress, size: usize) -> Result<(), MemoryError> {
-        let end = start + size as MemAddress;
+        let collision = MemoryError::SbrkHeapStackCollision(start, size, self.stack_start);
+        let Some(end) = MemAddress::try_from(size)
+            .ok()
+            .and_then(|size| start.checked_add(size))
+        else {
+            return Err(collision);
+        };
         if self.heap_start != 0 && end >= self.stack_start {
-            return Err(MemoryError::SbrkHeapStackCollision(
-                start,
-                size,
-                self.stack_start,
-            ));
+            return Err(collision);
         }
         self.set_address_range_access(start..end, AccessType::ReadWrite)?; // FIXME: SBRK: address-level access control
         self.heap_end = end;
diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 6aa05be..31a8419 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -240,7 +240,10 @@ impl PVMInterface {
         match result.exit_reason {
             ExitReason::OutOfGas => Ok(PVMInvocationResult::out_of_gas(gas_used)),
             ExitReason::RegularHalt => {
-                let start_address = pvm.state.read_reg_as_mem_address(7)?;
+                // An address beyond the memory is not readable
+                let Ok(start_address) = pvm.state.read_reg_as_mem_address(7) else {
+                    return Ok(PVMInvocationResult::no_output(gas_used));
+                };
                 let data_len = pvm.state.read_reg(8) as usize;
                 if !pvm
                     .state
-- 
2.43.0


From dbef1806764215d676e71576d090ac734edbf795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 08/35] fix: do not allocate for claimed lengths the input
 cannot hold when decoding

---
 codec/fr-codec/src/lib.rs          | 17 ++++++++++++++---
 pvm/pvm-core/src/program/loader.rs |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 2124931..9ba42e2 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -336,7 +336,8 @@ impl<T: JamEncode> JamEncode for Vec<T> {
 impl<T: JamDecode> JamDecode for Vec<T> {
     fn decode<I: JamInput>(input: &mut I) -> Result<Self, JamCodecError> {
         let len = usize::decode(input)?; // length discriminator
-        let mut vec = Self::with_capacity(len);
+        // The claimed length is untrusted, do not allocate beyond what the input can hold
+        let mut vec = Self::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -366,7 +367,7 @@ impl<T: JamDecode, const MAX_SIZE: usize> JamDecode for LimitedVec<T, MAX_SIZE>
                 "LimitedVec size limit exceeded".to_string(),
             ));
         }
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -685,8 +686,13 @@ impl JamDecodeFixed for BitVec<u8, Lsb0> {
     where
         Self: Sized,
     {
-        let mut bv = Self::with_capacity(size_in_bits);
         let expected_bytes = size_in_bits.div_ceil(8);
+        if expected_bytes > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill bitstring".into(),
+            ));
+        }
+        let mut bv = Self::with_capacity(size_in_bits);
         let mut bytes_read = 0;
 
         while bytes_read < expected_bytes {
@@ -731,6 +737,11 @@ impl JamDecodeFixed for Vec<u8> {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill buffer".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(buffer)
diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index 4dea3f8..7fecdcd 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -68,7 +68,7 @@ impl ProgramLoader {
         let instructions_len = usize::decode(input)?;
 
         // Decode the dynamic jump table (j)
-        let mut jump_table = Vec::with_capacity(jump_table_len);
+        let mut jump_table = Vec::with_capacity(jump_table_len.min(input.remaining_len()));
         for _ in 0..jump_table_len {
             jump_table.push(MemAddress::decode_fixed(input, z as usize)?);
         }
-- 
2.43.0


From 0270ab199bdbb60f37e87f9ecbac176dc9ee2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 09/35] fix: reject non-canonical integer, map and set
 encodings when decoding

---
 codec/fr-codec/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 9ba42e2..12e826c 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -204,6 +204,11 @@ where
     if length_prefix == 8 {
         // Case 3: 2^56 <= x < 2^64
         let value = u64::decode_fixed(input, 8)?;
+        if value < (1 << 56) {
+            return Err(JamCodecError::InputError(
+                "Non-canonical integer encoding".into(),
+            ));
+        }
         return U::try_from(value).map_err(|e| JamCodecError::ConversionError(e.to_string()));
     }
 
@@ -215,6 +220,11 @@ where
 
     // Combine quotient and remainder to get the final decoded value
     let value = (quotient << (8 * l)) | remainder;
+    if l > 0 && value < (1 << (7 * l)) {
+        return Err(JamCodecError::InputError(
+            "Non-canonical integer encoding".into(),
+        ));
+    }
     U::try_from(value).map_err(|e| JamCodecError::ConversionError(e.to_string()))
 }
 
@@ -473,6 +483,11 @@ impl<K: JamDecode + Eq + Ord, V: JamDecode> JamDecode for BTreeMap<K, V> {
         for _ in 0..len {
             let key = K::decode(input)?;
             let value = V::decode(input)?;
+            if map.last_key_value().is_some_and(|(last, _)| *last >= key) {
+                return Err(JamCodecError::InputError(
+                    "Map keys not in strictly ascending order".into(),
+                ));
+            }
             map.insert(key, value);
         }
         Ok(map)
@@ -497,7 +512,13 @@ impl<T: JamDecode + Ord> JamDecode for BTreeSet<T> {
         let len = usize::decode(input)?; // length discriminator
         let mut set = Self::new();
         for _ in 0..len {
-            set.insert(T::decode(input)?);
+            let item = T::decode(input)?;
+            if set.last().is_some_and(|last| *last >= item) {
+                return Err(JamCodecError::InputError(
+                    "Set items not in strictly ascending order".into(),
+                ));
+            }
+            set.insert(item);
         }
         Ok(set)
     }
-- 
2.43.0


From a79ac9e2c31f40d9fb020147cb9f1e34555a1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 10/35] fix: do not allocate for claimed octet sequence lengths
 the input cannot hold

---
 common/src/types/mod.rs                           | 12 ++++--------
 pvm/pvm-invocation/src/refine/auditable_bundle.rs |  4 +---
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/common/src/types/mod.rs b/common/src/types/mod.rs
index 2df8180..1a5a116 100644
--- a/common/src/types/mod.rs
+++ b/common/src/types/mod.rs
@@ -163,11 +163,9 @@ impl JamDecode for ByteSequence {
         Self: Sized,
     {
         let len = usize::decode(input)?;
-        let mut vec = vec![0u8; len];
-        input
-            .read(&mut vec)
-            .map_err(|_| JamCodecError::InputError("Failed to Decode ByteSequence".into()))?;
-        Ok(Self(vec))
+        Vec::<u8>::decode_fixed(input, len)
+            .map(Self)
+            .map_err(|_| JamCodecError::InputError("Failed to Decode ByteSequence".into()))
     }
 }
 
@@ -198,9 +196,7 @@ impl JamDecodeFixed for ByteSequence {
     where
         Self: Sized,
     {
-        let mut buffer = vec![0u8; size];
-        input.read(&mut buffer)?;
-        Ok(Self(buffer))
+        Vec::<u8>::decode_fixed(input, size).map(Self)
     }
 }
 
diff --git a/pvm/pvm-invocation/src/refine/auditable_bundle.rs b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
index fc73161..e261d86 100644
--- a/pvm/pvm-invocation/src/refine/auditable_bundle.rs
+++ b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
@@ -85,9 +85,7 @@ impl JamDecode for AuditableBundle {
             let mut work_item_xts = Vec::with_capacity(work_item.extrinsic_data_info.len());
             for xt_info in &work_item.extrinsic_data_info {
                 let blob_length = xt_info.blob_length as usize;
-                let mut blob = vec![0u8; blob_length];
-                input.read(&mut blob)?;
-                work_item_xts.push(Octets::from_vec(blob));
+                work_item_xts.push(Octets::decode_fixed(input, blob_length)?);
             }
             extrinsic_data.push(work_item_xts);
         }
-- 
2.43.0


From b88f1d3cdb576c3f488858543eb4b144ceecc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 11/35] fix: single-octet loads report page faults at the start
 of the page

---
 pvm/pvm-core/src/state/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 4aa21b4..4e1507a 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -245,7 +245,8 @@ impl Memory {
         if self.is_page_readable(page_index) {
             Ok(self.data[address as usize])
         } else {
-            Err(MemoryError::AccessViolation(address))
+            // The first address of the page
+            Err(MemoryError::AccessViolation(mem_address(page_index, 0)))
         }
     }
 
@@ -321,7 +322,8 @@ impl Memory {
             self.data[address as usize] = value;
             Ok(())
         } else {
-            Err(MemoryError::AccessViolation(address))
+            // The first address of the page
+            Err(MemoryError::AccessViolation(mem_address(page_index, 0)))
         }
     }
 
-- 
2.43.0


From 00e206ebd1029936b66819a21b93e853cac0b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 12/35] fix: keep uncommitted state entries out of the evicting
 cache

---
 state/src/cache.rs   | 125 +++++++++++++++----------------------------
 state/src/manager.rs |  21 ++++----
 2 files changed, 55 insertions(+), 91 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index c548ef4..f53a7a4 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -3,10 +3,10 @@ use crate::{
     error::StateManagerError,
     state_utils::{StateComponent, StateEntryType},
 };
-use fr_common::{ByteEncodable, StateKey};
+use fr_common::StateKey;
 use mini_moka::sync::{Cache, ConcurrentCacheExt};
 use std::{
-    collections::HashSet,
+    collections::HashMap,
     sync::{Arc, Mutex, MutexGuard},
 };
 #[derive(Debug, Clone, PartialEq)]
@@ -63,72 +63,64 @@ impl CacheEntry {
 
 /// A thread-safe mapping from state keys to their corresponding cache entries.
 pub struct StateCache {
-    /// A state cache which ensures that dirty cache entries never get evicted.
+    /// A state cache of clean entries, which can be evicted since they can be loaded from the DB.
     inner: Cache<StateKey, CacheEntry>,
-    /// Tracks state keys of all "dirty" cache entries.
-    dirty_keys: Mutex<HashSet<StateKey>>,
+    /// All "dirty" cache entries. These are the only copy of the uncommitted state changes and
+    /// therefore kept out of the evicting cache until they are committed or rolled back.
+    dirty_entries: Mutex<HashMap<StateKey, CacheEntry>>,
 }
 
 impl StateCache {
     /// Creates a `StateCache` with the given max capacity.
-    /// Cache entries with `Dirty` status never gets evicted since they have zero weight.
+    /// Cache entries with `Dirty` status are not counted and never get evicted.
     pub fn new(max_capacity: usize) -> Self {
         Self {
-            inner: Cache::builder()
-                .weigher(|_key, entry: &CacheEntry| -> u32 { u32::from(!entry.is_dirty()) })
-                .max_capacity(max_capacity as u64)
-                .build(),
-            dirty_keys: Mutex::new(HashSet::new()),
+            inner: Cache::new(max_capacity as u64),
+            dirty_entries: Mutex::new(HashMap::new()),
         }
     }
 
-    fn dirty_keys_guard(&self) -> MutexGuard<'_, HashSet<StateKey>> {
-        self.dirty_keys.lock().unwrap_or_else(|poisoned| {
-            tracing::error!("State cache dirty_keys lock poisoned; continuing with inner data");
+    fn dirty_entries_guard(&self) -> MutexGuard<'_, HashMap<StateKey, CacheEntry>> {
+        self.dirty_entries.lock().unwrap_or_else(|poisoned| {
+            tracing::error!("State cache dirty_entries lock poisoned; continuing with inner data");
             poisoned.into_inner()
         })
     }
 
-    fn get_dirty_state_keys(&self) -> Vec<StateKey> {
-        let guard = self.dirty_keys_guard();
-        guard.iter().cloned().collect()
-    }
-
-    fn insert_to_dirty_state_key_set(&self, state_key: StateKey) {
-        self.dirty_keys_guard().insert(state_key);
-    }
-
-    fn remove_dirty_state_key(&self, state_key: &StateKey) {
-        self.dirty_keys_guard().remove(state_key);
-    }
-
-    fn clear_dirty_state_keys(&self) {
-        self.dirty_keys_guard().clear();
+    fn get_dirty_entry(&self, key: &StateKey) -> Option<CacheEntry> {
+        self.dirty_entries_guard().get(key).cloned()
     }
 
     pub(crate) fn get_entry(&self, key: &StateKey) -> Option<CacheEntry> {
-        self.inner.get(key)
+        self.get_dirty_entry(key).or_else(|| self.inner.get(key))
     }
 
     pub(crate) fn get_entry_status(&self, key: &StateKey) -> Option<CacheEntryStatus> {
-        self.inner.get(key).map(|entry| entry.status.clone())
+        self.get_entry(key).map(|entry| entry.status)
     }
 
+    /// Inserts a cache entry.
     pub(crate) fn insert_entry(&self, key: StateKey, entry: CacheEntry) {
-        if entry.is_dirty() {
-            self.insert_to_dirty_state_key_set(key.clone());
+        if !entry.is_dirty() {
+            self.inner.insert(key, entry);
+            return;
         }
-        self.inner.insert(key, entry);
+
+        self.dirty_entries_guard().insert(key, entry);
     }
 
     // Note: test-only
     pub(crate) fn invalidate_all(&self) {
         self.inner.invalidate_all();
+        self.dirty_entries_guard().clear();
     }
 
+    /// Applies a state mutation to the state entry, where `curr_value` is the current value of the
+    /// entry to be used if it is not found from the cache.
     pub(crate) fn with_mut_entry<T, F, E>(
         &self,
         state_key: &StateKey,
+        curr_value: T,
         state_mut: StateMut,
         f: F,
     ) -> Result<(), StateManagerError>
@@ -139,9 +131,8 @@ impl StateCache {
     {
         // Cloned data
         let mut cache_entry = self
-            .inner
-            .get(state_key)
-            .ok_or(StateManagerError::CacheEntryNotFound)?;
+            .get_entry(state_key)
+            .unwrap_or_else(|| CacheEntry::new(T::into_entry_type(curr_value)));
 
         let entry_mut = T::from_entry_type_mut(Arc::make_mut(&mut cache_entry.value))
             .ok_or(StateManagerError::UnexpectedEntryType)?;
@@ -154,11 +145,10 @@ impl StateCache {
         if cache_entry.status != CacheEntryStatus::Dirty(StateMut::Add)
             || state_mut != StateMut::Update
         {
-            self.insert_to_dirty_state_key_set(state_key.clone());
             cache_entry.mark_dirty(state_mut)
         }
 
-        self.inner.insert(state_key.clone(), cache_entry);
+        self.insert_entry(state_key.clone(), cache_entry);
         Ok(())
     }
 
@@ -167,20 +157,18 @@ impl StateCache {
         key: &StateKey,
     ) -> Result<(), StateManagerError> {
         let mut cache_entry = self
-            .inner
-            .get(key)
+            .get_entry(key)
             .ok_or(StateManagerError::CacheEntryNotFound)?;
         cache_entry.mark_clean_and_snapshot();
-        self.remove_dirty_state_key(key);
         self.inner.insert(key.clone(), cache_entry);
+        self.dirty_entries_guard().remove(key);
         Ok(())
     }
 
     pub(crate) fn collect_dirty(&self) -> Vec<(StateKey, CacheEntry)> {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys
-            .into_iter()
-            .filter_map(|key| self.get_entry(&key).map(|entry| (key, entry)))
+        self.dirty_entries_guard()
+            .iter()
+            .map(|(key, entry)| (key.clone(), entry.clone()))
             .collect()
     }
 
@@ -188,17 +176,8 @@ impl StateCache {
     /// dirty state cache, by removing cache entries that are deleted from the global state and
     /// marking added or updated entries as clean.
     pub(crate) fn apply_direct_commit(&self, dirty_entries_from_cache: &[(StateKey, CacheEntry)]) {
-        for (key, entry) in dirty_entries_from_cache.iter() {
-            // Remove cache entries that are removed from the global state
-            if let CacheEntryStatus::Dirty(StateMut::Remove) = entry.status {
-                self.inner.invalidate(key);
-            } else if let Some(mut entry_mut) = self.inner.get(key) {
-                entry_mut.mark_clean_and_snapshot();
-                self.inner.insert(key.clone(), entry_mut);
-            }
-        }
-        self.inner.sync();
-        self.clear_dirty_state_keys();
+        self.apply_deferred_commit(dirty_entries_from_cache);
+        self.dirty_entries_guard().clear();
     }
 
     /// Applies the provided dirty cache entries from a state commit artifact of staged block
@@ -230,36 +209,18 @@ impl StateCache {
     }
 
     /// Rolls back all dirty cache entries to the clean status.
-    /// `Add`ed entries will be explicitly evicted from the state cache.
+    /// `Add`ed entries will be dropped from the state cache.
     /// `Update`d or `Remove`d entries will be reverted back to the clean snapshot.
     pub(crate) fn rollback_dirty_cache(&self) {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys.into_iter().for_each(|key| {
-            if let Some(mut entry) = self.get_entry(&key) {
-                match entry.status {
-                    CacheEntryStatus::Dirty(StateMut::Add) => {
-                        self.inner.invalidate(&key);
-                    }
-                    CacheEntryStatus::Dirty(StateMut::Update)
-                    | CacheEntryStatus::Dirty(StateMut::Remove) => {
-                        entry.revert_to_clean();
-                        self.insert_entry(key, entry);
-                    }
-                    CacheEntryStatus::Clean => {
-                        tracing::warn!(
-                            "Dirty state cache key points to clean entry. StateKey={}",
-                            key.to_hex()
-                        );
-                    }
-                }
+        let dirty_entries = std::mem::take(&mut *self.dirty_entries_guard());
+        dirty_entries.into_iter().for_each(|(key, mut entry)| {
+            if entry.status == CacheEntryStatus::Dirty(StateMut::Add) {
+                self.inner.invalidate(&key);
             } else {
-                tracing::warn!(
-                    "Dirty state cache key missing from cache. StateKey={}",
-                    key.to_hex()
-                );
+                entry.revert_to_clean();
+                self.inner.insert(key, entry);
             }
         });
-        self.clear_dirty_state_keys();
     }
 }
 
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 6661d6f..8ca6829 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -931,7 +931,14 @@ impl StateManager {
             // Special handling for the test-only `Raw` type
             if let StateEntryType::Raw(raw_octets) = entry.value.as_ref() {
                 let state_entry = T::decode(&mut raw_octets.as_slice())?;
-                self.insert_clean_cache_entry_and_snapshot(state_key, state_entry.clone());
+                if entry.is_dirty() {
+                    // Keep the uncommitted mutation
+                    let value = Arc::new(T::into_entry_type(state_entry.clone()));
+                    self.cache
+                        .insert_entry(state_key.clone(), CacheEntry { value, ..entry });
+                } else {
+                    self.insert_clean_cache_entry_and_snapshot(state_key, state_entry.clone());
+                }
                 return Ok(Some(state_entry));
             }
 
@@ -967,18 +974,14 @@ impl StateManager {
             return Err(StateManagerError::WrongStateMutType);
         }
 
-        let state_exists = self
-            .get_state_entry_internal::<T>(state_key)
-            .await?
-            .is_some();
-
-        if !state_exists {
+        let Some(curr_value) = self.get_state_entry_internal::<T>(state_key).await? else {
             return Err(StateManagerError::StateKeyNotInitialized(
                 state_key.encode_hex(),
             ));
-        }
+        };
 
-        self.cache.with_mut_entry(state_key, state_mut, f)
+        self.cache
+            .with_mut_entry(state_key, curr_value, state_mut, f)
     }
 
     async fn add_state_entry_internal<T>(
-- 
2.43.0


From 530bb705580963456326adf8a0033ab6b6a0cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 13/35] fix: removing and adding the same state entry between
 commits

---
 state/src/cache.rs   | 31 +++++++++++++++++++++++--------
 state/src/manager.rs |  4 ++++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index f53a7a4..9097a7a 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -100,13 +100,25 @@ impl StateCache {
     }
 
     /// Inserts a cache entry.
-    pub(crate) fn insert_entry(&self, key: StateKey, entry: CacheEntry) {
+    ///
+    /// Adding an entry that was removed since the last commit updates the committed entry.
+    pub(crate) fn insert_entry(&self, key: StateKey, mut entry: CacheEntry) {
         if !entry.is_dirty() {
             self.inner.insert(key, entry);
             return;
         }
 
-        self.dirty_entries_guard().insert(key, entry);
+        let mut dirty_entries = self.dirty_entries_guard();
+        if entry.status == CacheEntryStatus::Dirty(StateMut::Add) {
+            if let Some(removed) = dirty_entries
+                .get(&key)
+                .filter(|prev| prev.status == CacheEntryStatus::Dirty(StateMut::Remove))
+            {
+                entry.clean_snapshot = removed.clean_snapshot.clone();
+                entry.mark_dirty(StateMut::Update);
+            }
+        }
+        dirty_entries.insert(key, entry);
     }
 
     // Note: test-only
@@ -139,12 +151,15 @@ impl StateCache {
 
         f(entry_mut)?; // Call the closure to apply the state mutation
 
-        // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
-        // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
-        // they get committed to the db.
-        if cache_entry.status != CacheEntryStatus::Dirty(StateMut::Add)
-            || state_mut != StateMut::Update
-        {
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add) {
+            // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
+            // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
+            // they get committed to the db. If it is `StateMut::Remove`, the new entry is simply dropped.
+            if state_mut == StateMut::Remove {
+                self.dirty_entries_guard().remove(state_key);
+                return Ok(());
+            }
+        } else {
             cache_entry.mark_dirty(state_mut)
         }
 
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 8ca6829..63d501c 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -614,6 +614,10 @@ impl StateManager {
         T: StateComponent,
     {
         if let Some(entry) = self.cache.get_entry(state_key) {
+            // An uncommitted new entry doesn't have clean snapshot
+            if let CacheEntryStatus::Dirty(StateMut::Add) = entry.status {
+                return None;
+            }
             if let Some(state_entry) = T::from_entry_type(&entry.clean_snapshot) {
                 return Some(state_entry.clone());
             }
-- 
2.43.0


From b373bee3313b86c9446ab68b0943f129cb025940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 14/35] fix: drop the change set of a failed trie commit before
 the next one

---
 state/src/merkle_interface/manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/src/merkle_interface/manager.rs b/state/src/merkle_interface/manager.rs
index 3d82a74..718932b 100644
--- a/state/src/merkle_interface/manager.rs
+++ b/state/src/merkle_interface/manager.rs
@@ -696,6 +696,9 @@ impl MerkleManager {
             return Ok(None);
         }
 
+        // Drop remaining changes of the previous preparation, in case it failed
+        self.merkle_change_set.clear();
+
         // Update nodes in `MerkleChangeSet`
         self.insert_dirty_cache_entries_as_leaf_writes(dirty_entries)
             .await?;
-- 
2.43.0


From dd7ad2da7d21a043798e6c2df09d1b22e37ef0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 15/35] fix: commit state atomically

---
 db/src/core/cached_db.rs                      |  7 +-
 state/src/manager.rs                          | 65 +++++++++----------
 state/src/merkle_interface/actor.rs           | 41 +-----------
 .../state-merkle-v2/src/merkle_change_set.rs  | 15 ++---
 state/state-merkle-v2/src/merkle_db.rs        |  8 +--
 5 files changed, 47 insertions(+), 89 deletions(-)

diff --git a/db/src/core/cached_db.rs b/db/src/core/cached_db.rs
index c4f4d34..a43ab54 100644
--- a/db/src/core/cached_db.rs
+++ b/db/src/core/cached_db.rs
@@ -158,7 +158,12 @@ where
         writes: &[(K, Option<V>)],
     ) -> Result<(), CachedDBError> {
         self.core.commit_write_batch(batch).await?;
+        self.sync_cache(writes);
+        Ok(())
+    }
 
+    /// Syncs up the cache with writes committed to the DB.
+    pub fn sync_cache(&self, writes: &[(K, Option<V>)]) {
         for (key, val) in writes {
             match val {
                 Some(val) => {
@@ -167,7 +172,5 @@ where
                 None => self.cache.invalidate(key),
             }
         }
-
-        Ok(())
     }
 }
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 63d501c..a1480e1 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -808,27 +808,7 @@ impl StateManager {
         &self,
         artifact: &StateCommitArtifact,
     ) -> Result<(), StateManagerError> {
-        // Prepare StateDB write batch
-        let state_db_write_set = &artifact
-            .db_write_set_with_root
-            .db_write_set
-            .state_db_write_set;
-
-        let mut state_db_write_batch = WriteBatch::default();
-        let mut state_writes = Vec::with_capacity(state_db_write_set.len());
-        let state_db_cf = self.state_db.cf_handle()?;
-        for (k, v) in state_db_write_set {
-            state_writes.push((k.clone(), Some(v.clone())));
-            state_db_write_batch.put_cf(state_db_cf, k.as_db_key(), v.clone().into_db_value()?);
-        }
-
-        // Commit to the MerkleDB
-        self.merkle_manager
-            .apply_dirty_cache_commit(artifact.db_write_set_with_root.clone())
-            .await?;
-
-        // Commit to the StateDB
-        self.commit_to_state_db(state_db_write_batch, &state_writes)
+        self.commit_db_write_set(artifact.db_write_set_with_root.clone())
             .await?;
 
         // Sync up the state cache with the global state.
@@ -839,7 +819,7 @@ impl StateManager {
     }
 
     /// Collects all dirty cache entries after state transition, then directly commit them into
-    /// `MerkleDB` and `StateDB` as a single synchronous batch write operation.
+    /// `StateDB` and `MerkleDB`.
     /// After committing to the databases, marks the committed cache entries as clean.
     #[instrument(level = "debug", skip(self), name = "commit_cache")]
     pub async fn commit_dirty_cache(&self) -> Result<(), StateManagerError> {
@@ -849,27 +829,46 @@ impl StateManager {
             return Ok(());
         }
 
-        // Commit to MerkleDB and take the produced write set for the StateDB
-        let state_db_writes = self
+        // Prepare the write sets for the MerkleDB and the StateDB, then commit them
+        if let Some(db_write_set_with_root) = self
             .merkle_manager
-            .commit_dirty_cache(dirty_entries.clone())
-            .await?;
+            .prepare_dirty_cache_commit(dirty_entries.clone())
+            .await?
+        {
+            self.commit_db_write_set(db_write_set_with_root).await?;
+        }
 
+        // Sync up the state cache with the global state.
+        self.cache.apply_direct_commit(&dirty_entries);
+
+        Ok(())
+    }
+
+    /// Commits the prepared write sets into `StateDB` and `MerkleDB`.
+    ///
+    /// `StateDB` is keyed by the hash of the state values, so its entries are not visible until the
+    /// `MerkleDB` refers to them. The write batch for the `MerkleDB` is committed atomically after
+    /// that, so an interrupted commitment leaves the prior state intact.
+    async fn commit_db_write_set(
+        &self,
+        db_write_set_with_root: DBWriteSetWithRoot,
+    ) -> Result<(), StateManagerError> {
         // Commit to the StateDB
+        let state_db_write_set = &db_write_set_with_root.db_write_set.state_db_write_set;
         let mut state_db_write_batch = WriteBatch::default();
-        let mut state_writes = Vec::with_capacity(state_db_writes.len());
+        let mut state_writes = Vec::with_capacity(state_db_write_set.len());
         let state_db_cf = self.state_db.cf_handle()?;
-        for (k, v) in state_db_writes {
+        for (k, v) in state_db_write_set {
             state_writes.push((k.clone(), Some(v.clone())));
-            state_db_write_batch.put_cf(state_db_cf, k.as_db_key(), v.into_db_value()?);
+            state_db_write_batch.put_cf(state_db_cf, k.as_db_key(), v.clone().into_db_value()?);
         }
         self.commit_to_state_db(state_db_write_batch, &state_writes)
             .await?;
 
-        // Sync up the state cache with the global state.
-        self.cache.apply_direct_commit(&dirty_entries);
-
-        Ok(())
+        // Commit to the MerkleDB
+        self.merkle_manager
+            .apply_dirty_cache_commit(db_write_set_with_root)
+            .await
     }
 
     async fn commit_to_state_db(
diff --git a/state/src/merkle_interface/actor.rs b/state/src/merkle_interface/actor.rs
index 4f8814d..bbc0ce7 100644
--- a/state/src/merkle_interface/actor.rs
+++ b/state/src/merkle_interface/actor.rs
@@ -5,10 +5,7 @@ use crate::{
     merkle_interface::manager::{DBWriteSetWithRoot, MerkleManager},
 };
 use fr_common::{MerkleRoot, StateKey};
-use fr_state_merkle_v2::{
-    merkle_change_set::StateDBWrite,
-    types::{LeafNodeData, StateMerkleError},
-};
+use fr_state_merkle_v2::types::{LeafNodeData, StateMerkleError};
 use tokio::sync::{mpsc, oneshot};
 
 pub(crate) enum MerkleCommand {
@@ -19,12 +16,6 @@ pub(crate) enum MerkleCommand {
         state_key: StateKey,
         resp: oneshot::Sender<Result<Option<LeafNodeData>, StateMerkleError>>,
     },
-    /// Processes and commits the provided dirty state cache entries directly into the `MerkleDB`.
-    /// Equivalent to combination of `PrepareDirtyCacheCommit` & `ApplyDirtyCacheCommit`
-    CommitDirtyCache {
-        dirty_entries: Vec<(StateKey, CacheEntry)>,
-        resp: oneshot::Sender<Result<Vec<StateDBWrite>, StateMerkleError>>,
-    },
     /// Prepares `DBWriteSetWithRoot` by processing the provided dirty state cache entries.
     PrepareDirtyCacheCommit {
         dirty_entries: Vec<(StateKey, CacheEntry)>,
@@ -68,24 +59,6 @@ impl MerkleManagerHandle {
             .map_err(|_| StateManagerError::MerkleActorClosed)??)
     }
 
-    pub(crate) async fn commit_dirty_cache(
-        &self,
-        dirty_entries: Vec<(StateKey, CacheEntry)>,
-    ) -> Result<Vec<StateDBWrite>, StateManagerError> {
-        let (resp, recv) = oneshot::channel();
-        let command = MerkleCommand::CommitDirtyCache {
-            dirty_entries,
-            resp,
-        };
-        self.sender
-            .send(command)
-            .await
-            .map_err(|_| StateManagerError::MerkleActorClosed)?;
-        Ok(recv
-            .await
-            .map_err(|_| StateManagerError::MerkleActorClosed)??)
-    }
-
     pub(crate) async fn prepare_dirty_cache_commit(
         &self,
         dirty_entries: Vec<(StateKey, CacheEntry)>,
@@ -142,18 +115,6 @@ impl MerkleActor {
                     let retrieval_result = self.manager.retrieve(&state_key).await;
                     let _ = resp.send(retrieval_result);
                 }
-                MerkleCommand::CommitDirtyCache {
-                    dirty_entries,
-                    resp,
-                } => {
-                    let commit_result = self
-                        .manager
-                        .commit_dirty_state_cache_to_merkle_db_and_produce_state_db_write_set(
-                            &dirty_entries,
-                        )
-                        .await;
-                    let _ = resp.send(commit_result);
-                }
                 MerkleCommand::PrepareDirtyCacheCommit {
                     dirty_entries,
                     resp,
diff --git a/state/state-merkle-v2/src/merkle_change_set.rs b/state/state-merkle-v2/src/merkle_change_set.rs
index b07a291..ee25b81 100644
--- a/state/state-merkle-v2/src/merkle_change_set.rs
+++ b/state/state-merkle-v2/src/merkle_change_set.rs
@@ -15,10 +15,8 @@ type MerklePathWrite = Option<MerklePath>;
 pub type MerkleDBNodesWrite = (MerklePath, MerkleNodeWrite);
 pub type MerkleDBLeafPathsWrite = (StateKey, MerklePathWrite);
 
-pub struct MerkleDBWriteBatch {
-    pub(crate) nodes: WriteBatch,
-    pub(crate) leaf_paths: WriteBatch,
-}
+/// A single write batch for all column families of `MerkleDB`, committed atomically.
+pub struct MerkleDBWriteBatch(pub(crate) WriteBatch);
 
 #[derive(Clone, Default)]
 pub struct DBWriteSet {
@@ -49,21 +47,20 @@ impl DBWriteSet {
         merkle_nodes_cf: &ColumnFamily,
         merkle_leaf_paths_cf: &ColumnFamily,
     ) -> Result<MerkleDBWriteBatch, StateMerkleError> {
-        let mut nodes = WriteBatch::default();
-        let mut leaf_paths = WriteBatch::default();
+        let mut batch = WriteBatch::default();
 
         Self::append_write_entries_to_write_batch(
             merkle_nodes_cf,
-            &mut nodes,
+            &mut batch,
             std::mem::take(&mut self.merkle_db_nodes_write_set),
         )?;
         Self::append_write_entries_to_write_batch(
             merkle_leaf_paths_cf,
-            &mut leaf_paths,
+            &mut batch,
             std::mem::take(&mut self.merkle_db_leaf_paths_write_set),
         )?;
 
-        Ok(MerkleDBWriteBatch { nodes, leaf_paths })
+        Ok(MerkleDBWriteBatch(batch))
     }
 }
 
diff --git a/state/state-merkle-v2/src/merkle_db.rs b/state/state-merkle-v2/src/merkle_db.rs
index cbba6fb..2b4a621 100644
--- a/state/state-merkle-v2/src/merkle_db.rs
+++ b/state/state-merkle-v2/src/merkle_db.rs
@@ -154,7 +154,7 @@ impl MerkleDB {
         Ok(())
     }
 
-    /// Commit write batches for node entries and leaf node entries into the MerkleDB.
+    /// Commit a write batch for node entries and leaf path entries into the MerkleDB.
     pub async fn commit_write_batch(
         &self,
         batch: MerkleDBWriteBatch,
@@ -162,11 +162,9 @@ impl MerkleDB {
         leaf_paths_writes: &[MerkleDBLeafPathsWrite],
     ) -> Result<(), StateMerkleError> {
         self.nodes
-            .commit_write_batch_and_sync_cache(batch.nodes, nodes_writes)
-            .await?;
-        self.leaf_paths
-            .commit_write_batch_and_sync_cache(batch.leaf_paths, leaf_paths_writes)
+            .commit_write_batch_and_sync_cache(batch.0, nodes_writes)
             .await?;
+        self.leaf_paths.sync_cache(leaf_paths_writes);
         Ok(())
     }
 }
-- 
2.43.0


From dcd85d4b7250269e15d1dd9435f9e5b8866057c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 16/35] fix: a timeslot begins SLOT_DURATION seconds per slot
 after the common era

is_in_future() placed the beginning of each slot one slot too early, so that a block
of the next timeslot was accepted up to six seconds ahead of time, while JamClock
numbers the slots from zero.
---
 state/src/types/timeslot.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/state/src/types/timeslot.rs b/state/src/types/timeslot.rs
index d30c44a..932ae3d 100644
--- a/state/src/types/timeslot.rs
+++ b/state/src/types/timeslot.rs
@@ -83,11 +83,6 @@ impl Timeslot {
     }
 
     fn timeslot_beginning_to_unix_timestamp(&self) -> u64 {
-        if self.0 == 0 {
-            COMMON_ERA_TIMESTAMP
-        } else {
-            let slot_duration_secs = (self.0 - 1) as u64 * SLOT_DURATION;
-            COMMON_ERA_TIMESTAMP + slot_duration_secs
-        }
+        COMMON_ERA_TIMESTAMP + self.0 as u64 * SLOT_DURATION
     }
 }
-- 
2.43.0


From d1e776f65045fa55f4ce044331ea15f865203239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 17/35] fix: reuse a cached ring context only for the validator
 set it was built from

The binding of the cached validator set shadowed the requested set. Blocks that turn out
to be invalid leave rotations and offender nullifications in the ring cache, so tickets of
the next valid block were verified against the ring of another set.
---
 state/src/manager.rs | 65 ++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 47 deletions(-)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index a1480e1..bf5a9c8 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -331,31 +331,15 @@ impl StateManager {
         curr_timeslot_index: TimeslotIndex,
         validator_set: &ValidatorKeySet,
     ) -> Result<(RingVrfVerifier, BandersnatchRingRoot), StateManagerError> {
-        // Check the cache
-        if let Some(RingContext {
-            inserted_at,
-            validator_set,
-            verifier,
-            ring_root,
-        }) = self.ring_cache_read_guard().curr()
-        {
-            // Validate if the `curr` ring cache holds the correct latest ring context
-            let LastStagingSetTransitionContext {
-                last_staging_set_transition_slot,
-                last_effective_staging_set_hash,
-            } = self.last_staging_set_transition_context();
-
-            if last_staging_set_transition_slot < *inserted_at {
-                return Ok((verifier.clone(), ring_root.clone()));
-            }
-
-            // Extra check for the same-slot fork making the ring cache stale
-            if last_staging_set_transition_slot == *inserted_at {
-                let expected_effective_staging_set_hash =
-                    hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
-                if last_effective_staging_set_hash == expected_effective_staging_set_hash {
-                    return Ok((verifier.clone(), ring_root.clone()));
-                }
+        // Check the cache: the entry is usable only if it was built from the requested set.
+        // Rotations and offender nullifications triggered by blocks that turn out to be invalid
+        // aren't rolled back, so the entry may as well hold a ring of another set.
+        if let Some(ring_context) = self.ring_cache_read_guard().curr() {
+            if ring_context.validator_set == *validator_set {
+                return Ok((
+                    ring_context.verifier.clone(),
+                    ring_context.ring_root.clone(),
+                ));
             }
         }
 
@@ -382,28 +366,15 @@ impl StateManager {
         curr_timeslot_index: TimeslotIndex,
         validator_set: &ValidatorKeySet,
     ) -> Result<(RingVrfVerifier, BandersnatchRingRoot), StateManagerError> {
-        // Check the cache
-        if let Some(RingContext {
-            inserted_at,
-            validator_set,
-            verifier,
-            ring_root,
-        }) = self.ring_cache_read_guard().staging()
-        {
-            let expected_effective_staging_set_hash =
-                hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
-
-            // The cache entry is valid only if StagingSet was not mutated after its insertion
-            // Check both the transition slot and the effective staging set hash
-            let LastStagingSetTransitionContext {
-                last_staging_set_transition_slot,
-                last_effective_staging_set_hash,
-            } = self.last_staging_set_transition_context();
-
-            if last_staging_set_transition_slot <= *inserted_at
-                && last_effective_staging_set_hash == expected_effective_staging_set_hash
-            {
-                return Ok((verifier.clone(), ring_root.clone()));
+        // Check the cache: the entry is usable only if it was built from the requested set.
+        // Offender nullifications triggered by blocks that turn out to be invalid
+        // aren't rolled back, so the entry may as well hold a ring of another set.
+        if let Some(ring_context) = self.ring_cache_read_guard().staging() {
+            if ring_context.validator_set == *validator_set {
+                return Ok((
+                    ring_context.verifier.clone(),
+                    ring_context.ring_root.clone(),
+                ));
             }
         }
 
-- 
2.43.0


From ca37e4142da7b09f16dd69e13d062984c053eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 18/35] fix: accept a parentless block as genesis only while
 the chain is empty

Any block claiming the zero parent hash skipped header validation and disputes/seal checks
and was committed on top of the best block's state.
---
 node/src/roles/importer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 9023089..67b60d1 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -174,13 +174,19 @@ impl BlockImporter {
         Ok(block_import_output)
     }
 
+    /// A block without a parent is the genesis block only as long as the chain is empty;
+    /// once there is a best block, it is a block with an invalid parent hash.
+    fn is_importable_genesis(storage: &NodeStorage, block: &Block) -> bool {
+        block.is_genesis() && storage.header_db().get_best_header() == BlockHeader::default()
+    }
+
     async fn validate_block(
         storage: Arc<NodeStorage>,
         block: &Block,
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        if block.is_genesis() {
+        if Self::is_importable_genesis(&storage, block) {
             // Skip validation for the genesis block
             let output =
                 Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode)
@@ -512,7 +518,7 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        let account_state_changes = if block.is_genesis() {
+        let account_state_changes = if Self::is_importable_genesis(storage, block) {
             let output = BlockExecutor::run_genesis_state_transition(storage, block).await?;
             BlockExecutor::append_beefy_belt_and_block_history(
                 storage,
-- 
2.43.0


From 61243218eacce2c483d666d164e13ffe81411bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 19/35] fix: reject verdicts whose epoch is neither the current
 nor the previous one

---
 extrinsics/src/validation/disputes.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/extrinsics/src/validation/disputes.rs b/extrinsics/src/validation/disputes.rs
index 656ec13..9813f0f 100644
--- a/extrinsics/src/validation/disputes.rs
+++ b/extrinsics/src/validation/disputes.rs
@@ -170,12 +170,11 @@ impl DisputesXtValidator {
         all_past_report_hashes: &[Hash32],
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
-        // Check if verdicts contain entries with epoch index older than the previous epoch
-        if entry.epoch_index + 1 < prior_timeslot.epoch() {
-            return Err(XtError::InvalidJudgmentsAge(
-                entry.epoch_index,
-                prior_timeslot.epoch(),
-            ));
+        // Check if verdicts contain entries with epoch index other than the current or the previous epoch
+        let prior_epoch = prior_timeslot.epoch();
+        if entry.epoch_index != prior_epoch && entry.epoch_index.checked_add(1) != Some(prior_epoch)
+        {
+            return Err(XtError::InvalidJudgmentsAge(entry.epoch_index, prior_epoch));
         }
 
         // Check the valid votes count
-- 
2.43.0


From fec4804ed83dff0114b35a4214ccc456f82d6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 20/35] fix: keep each punished validator once when it is both
 culprit and at fault

---
 state/src/types/disputes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/state/src/types/disputes.rs b/state/src/types/disputes.rs
index 190eba0..7ec602d 100644
--- a/state/src/types/disputes.rs
+++ b/state/src/types/disputes.rs
@@ -72,8 +72,10 @@ impl DisputesState {
     }
 
     pub fn sort_extend_punish_set(&mut self, punish_set: Vec<Ed25519PubKey>) {
+        // A validator can be reported both as a culprit and for a fault in the same extrinsic
         self.punish_set.extend(punish_set);
         self.punish_set.sort();
+        self.punish_set.dedup();
     }
 
     pub fn get_all_report_hashes(&self) -> Vec<WorkReportHash> {
-- 
2.43.0


From c91be4b9f29b7f70c8492b702fa35d324f601339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 21/35] fix: count DA load of exported segments without
 rounding up to whole pages

The load per core is W_G * ceil(65n / 64) octets, not W_G * 65 * ceil(n / 64).
---
 transition/src/state/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transition/src/state/statistics.rs b/transition/src/state/statistics.rs
index 31edd10..45baae0 100644
--- a/transition/src/state/statistics.rs
+++ b/transition/src/state/statistics.rs
@@ -141,7 +141,7 @@ async fn handle_per_block_transition(
     for report in available_reports {
         let entry = core_stats.core_stats_entry_mut(report.core_index);
         entry.da_items_size += report.specs.work_bundle_length
-            + SEGMENT_SIZE as u32 * 65 * (report.specs.segment_count as u32).div_ceil(64);
+            + SEGMENT_SIZE as u32 * (report.specs.segment_count as u32 * 65).div_ceil(64);
     }
     for (i, count) in assurances.cores_assurances_counts().iter().enumerate() {
         let entry = core_stats.core_stats_entry_mut(i as CoreIndex);
-- 
2.43.0


From 014b47a99f707505036bf6f0f456441cac3c8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 22/35] fix: treat malformed service code as missing instead of
 failing the block

Any service can set its code hash to an arbitrary preimage; decoding it used to return an error
that made the whole block import fail.
---
 pvm/pvm-host/src/context/partial_state.rs | 5 ++---
 state/src/manager.rs                      | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 2a5605d..b1fd5b7 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -457,9 +457,8 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         let code_preimage = self
             .get_account_preimages_entry(state_provider, service_id, &code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.value.as_slice()))
-            .transpose()?)
+        // A blob that is not a proper service code is the same as no code
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.value.as_slice()).ok()))
     }
 
     pub async fn update_account_footprints(
diff --git a/state/src/manager.rs b/state/src/manager.rs
index bf5a9c8..c835221 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -659,9 +659,8 @@ impl StateManager {
         let code_preimage = self
             .lookup_historical_preimage(service_id, &Timeslot(reference_timeslot_index), code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.as_slice()))
-            .transpose()?)
+        // A blob that is not a proper service code is the same as no code
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.as_slice()).ok()))
     }
 
     /// The historical lookup function `Λ`
-- 
2.43.0


From 1a47a6388ddba0cf6d41e150acfbe6bdf8d21c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 23/35] fix: panic on malformed program blobs instead of
 failing the block

Any service can install code that is no proper program; running it used to return an error that
made the whole block import fail.
---
 pvm/pvm-interface/src/invoke.rs | 36 +++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 31a8419..a2a7c9a 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -166,6 +166,23 @@ impl InvocationType {
 
 pub struct PVMInterface;
 impl PVMInterface {
+    /// Decodes a standard program blob and loads its code.
+    fn load_standard_program(standard_program: &[u8]) -> Result<CachedProgram, PVMError> {
+        let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
+        if !formatted_program.is_program_size_valid() {
+            return Err(PVMError::VMCoreError(VMCoreError::InvalidProgram));
+        }
+
+        // Initialize the program state
+        let mut program_state = ProgramState::default();
+        ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
+
+        Ok(CachedProgram {
+            formatted_program: Arc::new(formatted_program),
+            program_state: Arc::new(program_state),
+        })
+    }
+
     /// Initializes a PVM instance and executes it with a standard program blob and some arguments.
     /// This works as a common interface for the four PVM invocation entry-points.
     ///
@@ -196,19 +213,12 @@ impl PVMInterface {
         let cached_program = if let Some(entry) = program_cache().get(&program_hash) {
             entry
         } else {
-            let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
-            if !formatted_program.is_program_size_valid() {
-                return Err(PVMError::VMCoreError(VMCoreError::InvalidProgram));
-            }
-
-            // Initialize the program state
-            let mut program_state = ProgramState::default();
-            ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
-
-            let cached = Arc::new(CachedProgram {
-                formatted_program: Arc::new(formatted_program),
-                program_state: Arc::new(program_state),
-            });
+            // A blob that is not a proper program panics without running
+            let Ok(program) = Self::load_standard_program(standard_program) else {
+                tracing::warn!("Malformed program blob. s={service_id}");
+                return Ok(PVMInvocationResult::panic(0));
+            };
+            let cached = Arc::new(program);
             program_cache().insert(program_hash, cached.clone());
             cached
         };
-- 
2.43.0


From 68bf553a0cb2a951513926891aa1425471596a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 24/35] fix: accept any address for empty memory ranges in host
 calls

An empty range is accessible wherever it starts; register values from 2^32 on used to panic the
service, for instance when an entry was deleted with an arbitrary value pointer.
---
 pvm/pvm-core/src/state/vm_state.rs            | 14 +++++++++++
 .../src/host_functions/accumulate/mod.rs      |  9 +++----
 .../src/host_functions/general/mod.rs         | 24 +++++++++----------
 pvm/pvm-host/src/host_functions/refine/mod.rs | 24 +++++++++----------
 4 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/pvm/pvm-core/src/state/vm_state.rs b/pvm/pvm-core/src/state/vm_state.rs
index 0886797..01f23c3 100644
--- a/pvm/pvm-core/src/state/vm_state.rs
+++ b/pvm/pvm-core/src/state/vm_state.rs
@@ -64,6 +64,20 @@ impl VMState {
         MemAddress::try_from(*reg).map_err(|_| VMCoreError::InvalidRegVal(index, *reg))
     }
 
+    /// Reads a register as the start address of a memory range of the given length.
+    /// An empty range is accessible wherever it starts.
+    #[inline(always)]
+    pub fn read_reg_as_range_start(
+        &self,
+        index: RegIndex,
+        length: usize,
+    ) -> Result<MemAddress, VMCoreError> {
+        if length == 0 {
+            return Ok(0);
+        }
+        self.read_reg_as_mem_address(index)
+    }
+
     #[inline(always)]
     pub fn read_reg_as_u32(&self, index: RegIndex) -> Result<u32, VMCoreError> {
         let reg = self
diff --git a/pvm/pvm-host/src/host_functions/accumulate/mod.rs b/pvm/pvm-host/src/host_functions/accumulate/mod.rs
index 3f31f72..1cf9950 100644
--- a/pvm/pvm-host/src/host_functions/accumulate/mod.rs
+++ b/pvm/pvm-host/src/host_functions/accumulate/mod.rs
@@ -52,10 +52,11 @@ impl<S: HostStateProvider> AccumulateHostFunction<S> {
         let Ok(assign_offset) = vm.read_reg_as_mem_address(8) else {
             host_call_panic!()
         };
-        let Ok(always_accumulate_offset) = vm.read_reg_as_mem_address(11) else {
+        let Ok(always_accumulates_count) = vm.read_reg_as_usize(12) else {
             host_call_panic!()
         };
-        let Ok(always_accumulates_count) = vm.read_reg_as_usize(12) else {
+        let Ok(always_accumulate_offset) = vm.read_reg_as_range_start(11, always_accumulates_count)
+        else {
             host_call_panic!()
         };
 
@@ -1185,10 +1186,10 @@ impl<S: HostStateProvider> AccumulateHostFunction<S> {
 
         // --- Read from Memory (Err: Panic)
 
-        let Ok(offset) = vm.read_reg_as_mem_address(8) else {
+        let Ok(preimage_size) = vm.read_reg_as_usize(9) else {
             host_call_panic!()
         };
-        let Ok(preimage_size) = vm.read_reg_as_usize(9) else {
+        let Ok(offset) = vm.read_reg_as_range_start(8, preimage_size) else {
             host_call_panic!()
         };
         if !vm.memory.is_address_range_readable(offset, preimage_size) {
diff --git a/pvm/pvm-host/src/host_functions/general/mod.rs b/pvm/pvm-host/src/host_functions/general/mod.rs
index 68c3431..72cfa83 100644
--- a/pvm/pvm-host/src/host_functions/general/mod.rs
+++ b/pvm/pvm-host/src/host_functions/general/mod.rs
@@ -109,9 +109,6 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
 
         // --- Check Memory Write Access (Err: Panic)
 
-        let Ok(buf_offset) = vm.read_reg_as_mem_address(7) else {
-            host_call_panic!()
-        };
         let data_read_offset = vm
             .read_reg_as_usize(8)
             .unwrap_or(data.len())
@@ -121,6 +118,9 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             .read_reg_as_usize(9)
             .unwrap_or(min_data_read_size)
             .min(min_data_read_size);
+        let Ok(buf_offset) = vm.read_reg_as_range_start(7, data_read_size) else {
+            host_call_panic!()
+        };
 
         if !vm
             .memory
@@ -292,7 +292,7 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             .unwrap_or(min_lookup_size)
             .min(min_lookup_size);
 
-        let Ok(buf_offset) = vm.read_reg_as_mem_address(9) else {
+        let Ok(buf_offset) = vm.read_reg_as_range_start(9, lookup_size) else {
             host_call_panic!()
         };
         if !vm.memory.is_address_range_writable(buf_offset, lookup_size) {
@@ -324,10 +324,10 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
         // --- Read from Memory (Err: Panic)
 
         let service_id_reg = vm.read_reg(7);
-        let Ok(key_offset) = vm.read_reg_as_mem_address(8) else {
+        let Ok(key_size) = vm.read_reg_as_usize(9) else {
             host_call_panic!()
         };
-        let Ok(key_size) = vm.read_reg_as_usize(9) else {
+        let Ok(key_offset) = vm.read_reg_as_range_start(8, key_size) else {
             host_call_panic!()
         };
 
@@ -369,7 +369,7 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
 
         // --- Additionally Check Memory Write Access (Err: Panic)
 
-        let Ok(buf_offset) = vm.read_reg_as_mem_address(10) else {
+        let Ok(buf_offset) = vm.read_reg_as_range_start(10, read_len) else {
             host_call_panic!()
         };
         if !vm.memory.is_address_range_writable(buf_offset, read_len) {
@@ -402,18 +402,18 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
 
         // --- Read from Memory (Err: Panic)
 
-        let Ok(key_offset) = vm.read_reg_as_mem_address(7) else {
-            host_call_panic!()
-        };
         let Ok(key_size) = vm.read_reg_as_usize(8) else {
             host_call_panic!()
         };
-        let Ok(value_offset) = vm.read_reg_as_mem_address(9) else {
+        let Ok(key_offset) = vm.read_reg_as_range_start(7, key_size) else {
             host_call_panic!()
         };
         let Ok(value_size) = vm.read_reg_as_usize(10) else {
             host_call_panic!()
         };
+        let Ok(value_offset) = vm.read_reg_as_range_start(9, value_size) else {
+            host_call_panic!()
+        };
 
         if !vm.memory.is_address_range_readable(key_offset, key_size)
             || (value_size > 0
@@ -567,7 +567,7 @@ impl<S: HostStateProvider> GeneralHostFunction<S> {
             Err(_) => info_blob_len_minus_offset,
         };
 
-        let Ok(buf_offset) = vm.read_reg_as_mem_address(8) else {
+        let Ok(buf_offset) = vm.read_reg_as_range_start(8, info_write_len) else {
             host_call_panic!()
         };
         if !vm
diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index d06070b..3b9899d 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -101,7 +101,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
             .unwrap_or(min_preimage_len)
             .min(min_preimage_len);
 
-        let Ok(buf_offset) = vm.read_reg_as_mem_address(9) else {
+        let Ok(buf_offset) = vm.read_reg_as_range_start(9, lookup_size) else {
             host_call_panic!()
         };
         if !vm.memory.is_address_range_writable(buf_offset, lookup_size) {
@@ -131,13 +131,13 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- Read from Memory (Err: Panic)
 
-        let Ok(offset) = vm.read_reg_as_mem_address(7) else {
-            host_call_panic!()
-        };
         let export_size = vm
             .read_reg_as_usize(8)
             .unwrap_or(SEGMENT_SIZE)
             .min(SEGMENT_SIZE);
+        let Ok(offset) = vm.read_reg_as_range_start(7, export_size) else {
+            host_call_panic!()
+        };
 
         if !vm.memory.is_address_range_readable(offset, export_size) {
             host_call_panic!()
@@ -179,10 +179,10 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- Read from Memory (Err: Panic)
 
-        let Ok(program_offset) = vm.read_reg_as_mem_address(7) else {
+        let Ok(program_size) = vm.read_reg_as_usize(8) else {
             host_call_panic!()
         };
-        let Ok(program_size) = vm.read_reg_as_usize(8) else {
+        let Ok(program_offset) = vm.read_reg_as_range_start(7, program_size) else {
             host_call_panic!()
         };
 
@@ -226,10 +226,10 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- Check HostVM Memory Write Access (Err: Panic)
 
-        let Ok(memory_offset) = vm.read_reg_as_mem_address(8) else {
+        let Ok(data_size) = vm.read_reg_as_usize(10) else {
             host_call_panic!()
         };
-        let Ok(data_size) = vm.read_reg_as_usize(10) else {
+        let Ok(memory_offset) = vm.read_reg_as_range_start(8, data_size) else {
             host_call_panic!()
         };
 
@@ -251,7 +251,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- Check InnerVM Memory Read Access (Err: OOB)
 
-        let Ok(inner_memory_offset) = vm.read_reg_as_mem_address(9) else {
+        let Ok(inner_memory_offset) = vm.read_reg_as_range_start(9, data_size) else {
             continue_oob!()
         };
         if !inner_memory.is_address_range_readable(inner_memory_offset, data_size) {
@@ -279,10 +279,10 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- Check HostVM Memory Read Access (Err: Panic)
 
-        let Ok(memory_offset) = vm.read_reg_as_mem_address(8) else {
+        let Ok(data_size) = vm.read_reg_as_usize(10) else {
             host_call_panic!()
         };
-        let Ok(data_size) = vm.read_reg_as_usize(10) else {
+        let Ok(memory_offset) = vm.read_reg_as_range_start(8, data_size) else {
             host_call_panic!()
         };
         if !vm
@@ -306,7 +306,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- Check InnerVM Memory Write Access (Err: OOB)
 
-        let Ok(inner_memory_offset) = vm.read_reg_as_mem_address(9) else {
+        let Ok(inner_memory_offset) = vm.read_reg_as_range_start(9, data_size) else {
             continue_oob!()
         };
         if !inner_memory_mut.is_address_range_writable(inner_memory_offset, data_size) {
-- 
2.43.0


From 232db7ea0dfc43097ed1b43822da9971f7c41bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 25/35] fix: integrate provided preimages after merging all
 accounts of the round

A preimage provided to a service with a higher id was overwritten when that service's own result
was merged later in the same round.
---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 8bc5fd1..5b4ef1d 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -501,6 +501,7 @@ async fn accumulate_parallel(
     let mut service_gas_pairs = Vec::new();
     let mut service_output_pairs = BTreeSet::new();
     let mut new_deferred_transfers = Vec::new();
+    let mut provided_preimages = HashSet::new();
 
     // Concurrent accumulate invocations grouped by service ids.
     let mut handles = Vec::with_capacity(all_service_ids.len());
@@ -568,18 +569,22 @@ async fn accumulate_parallel(
                 // Add deferred transfers
                 new_deferred_transfers.extend(accumulate_result.deferred_transfers);
 
-                // Add provided preimages
-                add_provided_preimages(
-                    state_manager.clone(),
-                    partial_state_union,
-                    accumulate_result.provided_preimages,
-                    curr_timeslot_index,
-                )
-                .await?;
+                // Collect provided preimages
+                provided_preimages.extend(accumulate_result.provided_preimages);
             }
         }
     }
 
+    // Integrate provided preimages once all account changes of the round are merged, so that the
+    // accounts they belong to are in their posterior state and don't overwrite them afterwards.
+    add_provided_preimages(
+        state_manager.clone(),
+        partial_state_union,
+        provided_preimages,
+        curr_timeslot_index,
+    )
+    .await?;
+
     // Multiple services that are accumulated in the same `Δ*` round can produce conflicting
     // changes to the privileged services: assigners, designate and registrar.
     // So at this point, `partial_state_union` may hold `Some` variants for both `change_by_bless`
-- 
2.43.0


From c5f85badf222918d27967a26112e624eea2a1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 26/35] fix: let assigners hand over cores the manager leaves
 unchanged

A BLESS by the manager replaced the assigners of all cores, dropping an assigner's own ASSIGN for a
core whose assigner the manager did not change. As for the designate and registrar services, only a
change by the manager takes precedence.
---
 pvm/pvm-host/src/context/partial_state.rs     |  1 -
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 35 +++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index b1fd5b7..af6692b 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -1108,7 +1108,6 @@ impl AssignServicesPartialState {
     ) -> Result<(), PartialStateError> {
         if let Some(assigners_by_manager) = &other.change_by_bless {
             self.change_by_bless = Some(assigners_by_manager.clone());
-            return Ok(());
         }
 
         for (&core_idx, &assigner_by_self) in &other.change_by_self {
diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 5b4ef1d..c756e7b 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -3,11 +3,12 @@ use crate::{
     error::PVMInvokeError,
 };
 use fr_common::{
-    workloads::work_report::WorkReport, LookupsKey, Octets, ServiceId, TimeslotIndex, UnsignedGas,
+    workloads::work_report::WorkReport, CoreIndex, LookupsKey, Octets, ServiceId, TimeslotIndex,
+    UnsignedGas,
 };
 use fr_crypto::{hash, Blake2b256};
 use fr_pvm_host::context::partial_state::{
-    AccumulatePartialState, SandboxEntryAccessor, SandboxEntryStatus,
+    AccumulatePartialState, AssignServicesPartialState, SandboxEntryAccessor, SandboxEntryStatus,
 };
 use fr_pvm_types::{
     invoke_args::{AccumulateInputs, AccumulateInvokeArgs, AccumulateOperand, DeferredTransfer},
@@ -596,22 +597,20 @@ async fn accumulate_parallel(
     //
     // Once the state change is confirmed, partial state change fields of the union should be cleared.
 
-    // Confirm the new assign services
-    if let Some(new_assign_services_by_manager) =
-        &partial_state_union.assign_services.change_by_bless
-    {
-        partial_state_union.assign_services.last_confirmed = new_assign_services_by_manager.clone();
-    } else {
-        for (core_idx, new_assign_service_by_self) in
-            &partial_state_union.assign_services.change_by_self
-        {
-            if let Some(assign) = partial_state_union
-                .assign_services
-                .last_confirmed
-                .get_mut(*core_idx as usize)
-            {
-                *assign = *new_assign_service_by_self;
-            }
+    // Confirm the new assign services, core by core
+    let AssignServicesPartialState {
+        last_confirmed,
+        change_by_bless,
+        change_by_self,
+    } = &mut partial_state_union.assign_services;
+    for (core_idx, assign) in last_confirmed.iter_mut().enumerate() {
+        let by_manager = change_by_bless
+            .as_ref()
+            .and_then(|assigns| assigns.get(core_idx))
+            .filter(|by_manager| *by_manager != assign);
+        let by_self = change_by_self.get(&(core_idx as CoreIndex));
+        if let Some(new_assign_service) = by_manager.or(by_self) {
+            *assign = *new_assign_service;
         }
     }
 
-- 
2.43.0


From b386adac5c8758c1673cefc55e7702d9eb10ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 27/35] fix: remove ejected accounts that were modified earlier
 in the block

An account that received a transfer in an earlier round lost its sandbox entry instead of being
marked as removed, so it survived while the ejecting service collected its balance.
---
 pvm/pvm-host/src/context/partial_state.rs | 50 ++++-------------------
 1 file changed, 9 insertions(+), 41 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index af6692b..4aee332 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -387,24 +387,6 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
             .and_then(|sandbox| sandbox.metadata.as_mut()))
     }
 
-    async fn get_account_metadata_clean(
-        &mut self,
-        state_provider: Arc<S>,
-        service_id: ServiceId,
-    ) -> Result<Option<AccountMetadata>, PartialStateError> {
-        let sandbox =
-            if let Some(sandbox) = self.get_account_sandbox(state_provider, service_id).await? {
-                sandbox
-            } else {
-                return Ok(None);
-            };
-        if let SandboxEntryStatus::Clean = sandbox.metadata.entry.status {
-            Ok(sandbox.metadata.entry.value.clone())
-        } else {
-            Ok(sandbox.metadata.clean_snapshot.clone())
-        }
-    }
-
     pub async fn mark_account_metadata_updated(
         &mut self,
         state_provider: Arc<S>,
@@ -1036,21 +1018,16 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
             unreachable!("Account being ejected not found from the global state; this case should be handled by the host function");
         }
 
-        // Lookup the state entry from the global state (or clean snapshot) to determine the final entry status.
-        //
-        // If the entry exists in the global state (or clean snapshot), the new entry should be
-        // marked as `Remove`d, since the operation is effectively attempting to mark the entry as
-        // removed in the sandbox.
-        // Otherwise, the entry should be removed from the sandbox since the operation is removing
-        // entry that is added during the accumulation, only existing in the sandbox.
-        let Some(clean) = self
-            .get_account_metadata_clean(state_provider.clone(), service_id)
+        // An account added during the accumulation only exists in the sandbox. Any other one exists in
+        // the global state, whether modified since or not, and should be marked as `Remove`d.
+        if self
+            .get_account_sandbox(state_provider.clone(), service_id)
             .await?
-        else {
-            // Removing account metadata entry that only exists in the sandbox.
+            .is_some_and(|sandbox| matches!(sandbox.metadata.status(), SandboxEntryStatus::Added))
+        {
             self.remove(&service_id);
             return Ok(());
-        };
+        }
 
         // Remove the last lookups and preimage entries for the account.
         // Since the `EJECT` host function requires that all storage entries associated with the
@@ -1066,17 +1043,8 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         self.remove_account_lookups_entry(state_provider.clone(), service_id, one_last_lookups_key)
             .await?;
 
-        // Entry with the key already exists in the global state
-        let entry = SandboxEntryVersioned::new_removed(clean);
-        let sandbox = self
-            .get_mut_account_sandbox(state_provider, service_id)
-            .await?
-            .ok_or(PartialStateError::AccountNotFoundFromGlobalState(
-                service_id,
-            ))?;
-
-        sandbox.metadata = entry;
-        Ok(())
+        self.mark_account_metadata_removed(state_provider, service_id)
+            .await
     }
 }
 
-- 
2.43.0


From a7197ee4b992dd76a4d94177af4de85f88bb3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 28/35] fix: give inner machines their own memory and let PAGES
 allocate it

Inner machines started with an empty memory, so PAGES, PEEK and POKE could never succeed. Clearing
pages also required them to be writable already, and a large page count overflowed the bound check.
---
 pvm/pvm-core/src/state/memory.rs              | 12 ++++++++++++
 pvm/pvm-host/src/host_functions/refine/mod.rs |  9 ++++-----
 pvm/pvm-host/src/inner_vm.rs                  |  7 +++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 4e1507a..6e2a87f 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -119,6 +119,18 @@ impl Memory {
         Ok(())
     }
 
+    /// Zeroes all cells of a range of memory pages, regardless of their access types.
+    pub fn clear_page_range(&mut self, page_range: Range<usize>) -> Result<(), MemoryError> {
+        if page_range.is_empty() {
+            return Ok(());
+        }
+        self.validate_page_index_bound(page_range.end - 1)?;
+        let start = page_range.start * self.page_size;
+        let end = (page_range.end * self.page_size).min(self.data.len());
+        self.data[start..end].fill(0);
+        Ok(())
+    }
+
     /// Check if a memory page is readable.
     #[inline(always)]
     fn is_page_readable(&self, page_index: usize) -> bool {
diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 3b9899d..7e5df27 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -354,7 +354,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         if mode > 4
             || inner_memory_page_offset < 16
-            || inner_memory_page_offset + pages_count >= (1 << 32) / PAGE_SIZE
+            || inner_memory_page_offset.saturating_add(pages_count) >= (1 << 32) / PAGE_SIZE
         {
             continue_huh!()
         }
@@ -370,9 +370,8 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // conditionally clear values
         if mode < 3 {
-            let address_offset = (inner_memory_page_offset * PAGE_SIZE) as MemAddress;
-            let data_size = pages_count * PAGE_SIZE;
-            let Ok(_) = inner_memory_mut.write_bytes(address_offset, &vec![0u8; data_size]) else {
+            // whatever the current access of the pages
+            let Ok(_) = inner_memory_mut.clear_page_range(page_start..page_end) else {
                 continue_huh!()
             };
         }
@@ -445,7 +444,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
-            memory: inner_vm_mut.memory.clone(),
+            memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
             gas_counter: gas_limit
                 .try_into()
diff --git a/pvm/pvm-host/src/inner_vm.rs b/pvm/pvm-host/src/inner_vm.rs
index 985b354..510c060 100644
--- a/pvm/pvm-host/src/inner_vm.rs
+++ b/pvm/pvm-host/src/inner_vm.rs
@@ -1,5 +1,8 @@
 use fr_pvm_core::state::memory::Memory;
-use fr_pvm_types::common::RegValue;
+use fr_pvm_types::{
+    common::RegValue,
+    constants::{MEMORY_SIZE, PAGE_SIZE},
+};
 
 #[derive(Clone)]
 pub(crate) struct InnerPVM {
@@ -15,7 +18,7 @@ impl InnerPVM {
     pub(crate) fn new(program_code: Vec<u8>, pc: RegValue) -> Self {
         Self {
             program_code,
-            memory: Memory::default(),
+            memory: Memory::new(MEMORY_SIZE, PAGE_SIZE),
             pc,
         }
     }
-- 
2.43.0


From b60d287e7f92cf4f37fcd9c8f3eea49a00342e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 29/35] fix: assign the smallest unused id to a new inner
 machine

---
 pvm/pvm-host/src/context/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-host/src/context/mod.rs b/pvm/pvm-host/src/context/mod.rs
index 4318b07..86787b8 100644
--- a/pvm/pvm-host/src/context/mod.rs
+++ b/pvm/pvm-host/src/context/mod.rs
@@ -492,7 +492,7 @@ impl<S: HostStateProvider> AccumulateHostContext<S> {
 
 #[derive(Clone, Default)]
 pub struct RefineHostContext {
-    /// PVM instance ID to be assigned for the next instance
+    /// PVM instance ID to be assigned for the next instance, the smallest one not in use
     pub next_instance_id: usize,
     /// **`m`**: Inner PVM instances
     pub(crate) pvm_instances: HashMap<usize, InnerPVM>,
@@ -526,11 +526,14 @@ impl RefineHostContext {
     pub(crate) fn add_pvm_instance(&mut self, pvm: InnerPVM) -> usize {
         let id = self.next_instance_id;
         self.pvm_instances.insert(id, pvm);
-        self.next_instance_id += 1;
+        while self.pvm_instances.contains_key(&self.next_instance_id) {
+            self.next_instance_id += 1;
+        }
         id
     }
 
     pub(crate) fn remove_pvm_instance(&mut self, id: usize) {
         self.pvm_instances.remove(&id);
+        self.next_instance_id = self.next_instance_id.min(id);
     }
 }
-- 
2.43.0


From 71545a6d4bad7348bf06d871cb73870afd22d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 30/35] fix: let INVOKE accept gas limits of 2^63 and above

The caller of INVOKE may give any 64-bit gas limit; large ones used to abort the whole refinement.
---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 7e5df27..aefed60 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -441,14 +441,16 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- PVM Invocation
 
+        // Gas beyond the range of the gas counter cannot be used up and is left over.
+        let usable_gas = gas_limit.min(SignedGas::MAX as UnsignedGas);
+        let unusable_gas = gas_limit - usable_gas;
+
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
             memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
-            gas_counter: gas_limit
-                .try_into()
-                .map_err(|_| HostCallError::GasLimitOverflow(gas_limit))?,
+            gas_counter: usable_gas as SignedGas,
         };
 
         // Load program and invoke the PVM.
@@ -464,7 +466,9 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // 112-byte mem write
         let mut host_buf = vec![];
-        (inner_vm_state_copy.gas_counter as UnsignedGas).encode_to_fixed(&mut host_buf, 8)?;
+        (inner_vm_state_copy.gas_counter as UnsignedGas)
+            .wrapping_add(unusable_gas)
+            .encode_to_fixed(&mut host_buf, 8)?;
         for reg in inner_vm_state_copy.regs {
             reg.encode_to_fixed(&mut host_buf, 8)?;
         }
-- 
2.43.0


From fba8d35815dff24b5166550925083d82e1e129f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 31/35] fix: encode authorization traces of accumulation
 operands as octets

A vector of integers is encoded with each one in its variable-length form, so that octets from 0x80
on were handed to accumulating services as two octets each.
---
 pvm/pvm-types/src/invoke_args.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-types/src/invoke_args.rs b/pvm/pvm-types/src/invoke_args.rs
index 418186c..bfeccb4 100644
--- a/pvm/pvm-types/src/invoke_args.rs
+++ b/pvm/pvm-types/src/invoke_args.rs
@@ -7,7 +7,7 @@ use fr_common::{
 };
 use std::collections::HashMap;
 
-#[derive(Clone, JamEncode)]
+#[derive(Clone)]
 pub struct AccumulateOperand {
     /// `p`: Work package hash (`work_package_hash` of `AvailSpecs`)
     pub work_package_hash: WorkPackageHash,
@@ -25,6 +25,32 @@ pub struct AccumulateOperand {
     pub auth_trace: Vec<u8>,
 }
 
+impl JamEncode for AccumulateOperand {
+    fn size_hint(&self) -> usize {
+        self.work_package_hash.size_hint()
+            + self.segment_root.size_hint()
+            + self.authorizer_hash.size_hint()
+            + self.work_item_payload_hash.size_hint()
+            + self.accumulate_gas_limit.size_hint()
+            + self.refine_result.size_hint()
+            + self.auth_trace.len().size_hint()
+            + self.auth_trace.len()
+    }
+
+    fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
+        self.work_package_hash.encode_to(dest)?;
+        self.segment_root.encode_to(dest)?;
+        self.authorizer_hash.encode_to(dest)?;
+        self.work_item_payload_hash.encode_to(dest)?;
+        self.accumulate_gas_limit.encode_to(dest)?;
+        self.refine_result.encode_to(dest)?;
+        // Octets are written as they are, not as integers
+        self.auth_trace.len().encode_to(dest)?;
+        dest.write(&self.auth_trace);
+        Ok(())
+    }
+}
+
 pub type TransferMemo = ByteArray<TRANSFER_MEMO_SIZE>;
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From fbd24f1831d558a23d4da8c276280fc11d507773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 32/35] fix: decode the metadata of service code as octets

Octets from 0x80 on were taken as the first of a longer integer, so that code behind such metadata
was cut off or could not be decoded at all.
---
 state/src/types/services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 31dac09..8a752a2 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -91,7 +91,7 @@ impl JamDecode for AccountCode {
     where
         Self: Sized,
     {
-        let metadata = Vec::<u8>::decode(input)?;
+        let metadata = Octets::decode(input)?.into_vec();
         let code_len = input.remaining_len();
         let code = Vec::<u8>::decode_fixed(input, code_len)?;
         Ok(Self { metadata, code })
-- 
2.43.0


From 684ed4091e130a72e7da5162f8e8bf2f228331f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 33/35] fix: encode work item payloads in refine arguments as
 octets

---
 pvm/pvm-invocation/src/refine/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-invocation/src/refine/mod.rs b/pvm/pvm-invocation/src/refine/mod.rs
index 235dcca..328aa58 100644
--- a/pvm/pvm-invocation/src/refine/mod.rs
+++ b/pvm/pvm-invocation/src/refine/mod.rs
@@ -30,7 +30,7 @@ struct RefineVMArgs {
     /// Associated service id (`s` of `WorkItem`)
     service_id: ServiceId,
     /// Work item payload blob (**`y`** of `WorkItem`)
-    work_payload: Vec<u8>,
+    work_payload: Octets,
     /// Work package hash (Hash of `WorkPackage`)
     work_package_hash: WorkPackageHash,
 }
@@ -149,7 +149,7 @@ impl RefineInvocation {
             core_idx: args.core_idx,
             item_idx: args.item_idx,
             service_id: work_item.service_id,
-            work_payload: work_item.payload_blob.clone().into_vec(),
+            work_payload: work_item.payload_blob.clone(),
             work_package_hash: hash::<Blake2b256>(&args.package.encode()?)?,
         };
 
-- 
2.43.0


From dab181d057e50db7df83e46521407868ea69bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 34/35] fix: report the identifier of unknown host calls of
 inner machines

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index aefed60..41b65ec 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -477,11 +477,16 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         tracing::debug!("INVOKE instance_id={inner_vm_id} exit_reason={inner_vm_exit_reason:?}");
         match inner_vm_exit_reason {
-            ExitReason::HostCall(host_call_type) => {
+            ExitReason::HostCall(_) => {
+                // Report the host call identifier as the inner VM stated it, known or not.
+                let host_call_id = inner_vm_program_state
+                    .instruction_at(inner_vm_mut.pc as usize)
+                    .ok_or(HostCallError::InvalidExitReason)?
+                    .imm1()?;
                 inner_vm_mut.pc = Interpreter::next_pc(inner_vm_mut.pc, &inner_vm_program_state);
                 continue_with_vm_change!(
                     r7: HOST,
-                    r8: host_call_type.clone(),
+                    r8: host_call_id,
                     mem_offset: memory_offset,
                     mem_data: host_buf
                 )
-- 
2.43.0


From 3e637528fe11d32c70cde9c73973392f02a6b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:26 +0000
Subject: [PATCH 35/35] fix: do not reserve memory for a lookup entry's claimed
 length

---
 state/src/types/services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 8a752a2..adbf365 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -518,7 +518,7 @@ impl JamDecode for AccountLookupsEntry {
         Self: Sized,
     {
         let len = usize::decode(input)?;
-        let mut timeslots = Vec::with_capacity(len);
+        let mut timeslots = Vec::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             let timeslot = Timeslot::decode_fixed(input, 4)?;
             timeslots.push(timeslot)
-- 
2.43.0

