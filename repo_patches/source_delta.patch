From 04542343eb45d70b132afd896dc347a1cb566ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:49 +0000
Subject: [PATCH 1/9] fix: reject instructions with a word count of zero

A zero word count was read as if it was one, so a zero filled tail was
accepted as a list of OpNop instructions.
---
 src/spv/raw/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..3962c98 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,10 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        // The word count includes the opcode word so can never be zero
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From acbaf222cb72d48b92412887454ba580c701a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:49 +0000
Subject: [PATCH 2/9] fix: check all bits of the version word

Only the low nibble of each byte was looked at, so a version word such as
0x00F1F0F0 was accepted as version 1.0.
---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 3962c98..20a3a17 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From 26741a9c12de170e732318f1210d05bd5521999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:49 +0000
Subject: [PATCH 3/9] fix: reject unknown bits in every mask operand

Bits above the low 16 of a mask word were silently dropped, as were bit 5 of
a fast math mode and all unknown bits of a function control.
---
 src/spv/raw/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..e877c03 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -289,6 +289,7 @@ pub enum ReadError {
     UnknownSignedness(u32),
     UnknownStorageClass(u32),
     UnknownFunctionParameterAttribute(u32),
+    UnknownFunctionControl(u32),
     UnknownMemoryAccess(u32),
     UnknownDim(u32),
     UnknownDepthStatus(u32),
@@ -340,6 +341,7 @@ impl Error for ReadError {
             UnknownSignedness(_) => "unknown signedness",
             UnknownStorageClass(_) => "unknown storage class",
             UnknownFunctionParameterAttribute(_) => "unknown function parameter attribute",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownMemoryAccess(_) => "unknown memory access",
             UnknownDim(_) => "unknown image dimension",
             UnknownDepthStatus(_) => "unknown image depth hint",
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
@@ -841,7 +846,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +944,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1084,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1107,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From 13bf365ce69a1ec5e2448b3c8932dca3aa7e8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:48 +0000
Subject: [PATCH 4/9] fix: validate modules of any length without exhausting
 the stack

---
 src/spv/logical/parser/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..c2623a5 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -96,20 +96,18 @@ enum PhaseResult<'a, T> {
 fn read_many<T>(insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut insts = insts;
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From 0b5d9d3c25038dd0fc7787117cca24a4004f9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:48 +0000
Subject: [PATCH 5/9] fix: report unsupported merge and branch pairs as an
 error instead of panicking

---
 src/spv/logical/control_flow.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..cd3b341 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,7 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -368,7 +368,9 @@ fn search_block(id: BlockId,
                     }
                 }
                 // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From 44166d695fdac646a6392441c8d87def77f9fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 6/9] fix: stop the control flow search when it goes round a
 cycle of blocks

---
 src/spv/logical/control_flow.rs | 46 ++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index cd3b341..765ba03 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -231,27 +231,69 @@ impl FlowNode {
     }
 }
 
+/// Links back to the blocks we've searched through to get to the current block
+struct TrailNode {
+    id: BlockId,
+    joins: usize,
+    ptr: Option<Rc<TrailNode>>,
+}
+
 /// Manages the FlowNode list
 struct FlowList {
     head: Option<Rc<FlowNode>>,
+    // Number of distinct blocks we can converge at
+    joins: usize,
+    trail: Option<Rc<TrailNode>>,
 }
 
 impl FlowList {
     /// Start a new empty flow list
     fn new() -> FlowList {
-        FlowList { head: None }
+        FlowList {
+            head: None,
+            joins: 0,
+            trail: None,
+        }
     }
 
     /// Add a node to the flow list
     fn extend(&self, converge: Converge) -> FlowList {
+        let is_new = match converge {
+            Converge::If(ref join, _) |
+            Converge::Loop(ref join, _, _) => !self.merges(join),
+        };
         FlowList {
             head: Some(Rc::new(FlowNode {
                 converge: converge,
                 ptr: self.head.clone(),
             })),
+            joins: self.joins + if is_new { 1 } else { 0 },
+            trail: self.trail.clone(),
         }
     }
 
+    /// Add a block to the trail
+    /// Fails if we already searched it with the same set of blocks to converge at,
+    /// as then the search would go round the same cycle of blocks forever
+    fn visit(&self, id: BlockId) -> ControlFlowResult<FlowList> {
+        let mut node = &self.trail;
+        while let Some(ref visited) = *node {
+            if visited.id == id && visited.joins == self.joins {
+                return Err(ControlFlowError::CouldNotPredictConverge(id));
+            }
+            node = &visited.ptr;
+        }
+        Ok(FlowList {
+            head: self.head.clone(),
+            joins: self.joins,
+            trail: Some(Rc::new(TrailNode {
+                id: id,
+                joins: self.joins,
+                ptr: self.trail.clone(),
+            })),
+        })
+    }
+
     /// Check if a block is in the flow list
     fn merges(&self, id: &BlockId) -> bool {
         match self.head {
@@ -283,6 +325,8 @@ fn search_block(id: BlockId,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
     };
 
+    let flow_list = &try!(flow_list.visit(id));
+
     match block.branch {
         GroupBranch::OpBranch(ref op) => {
             let current = ControlFlowChain::Atom(id);
-- 
2.43.0


From 55d7f1ea119e276b94fd04234f6d0e3705ebafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:00 +0000
Subject: [PATCH 7/9] fix: reject function declarations after the function
 definitions

---
 src/spv/logical/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index c2623a5..f9b873f 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -276,6 +276,11 @@ fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {
                     Err(err) => return PhaseResult::Err(err),
                 };
                 if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
+                    if blocks.is_empty() {
+                        // All function declarations must be before the definitions
+                        let slot = insts.get_slot();
+                        return PhaseResult::Err(ValidationError::UnexpectedInstruction(slot));
+                    }
                     let insts = insts.advance();
                     let def = FunctionDefinition {
                         function: op.clone(),
-- 
2.43.0


From bf972585aea718984c87f807f905254e695e279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:11 +0000
Subject: [PATCH 8/9] fix: quote the linkage name in the disassembly like other
 strings

---
 src/spv/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..a86ed9e 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,7 @@ impl Display for Decoration {
                 return write!(f, "FpFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                return write!(f, "LinkageAttributes \"{}\" {}", name, lt)
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0


From c11f64651390d3f8ca81d4d89dc425ce69366280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:51 +0000
Subject: [PATCH 9/9] fix: reserve room for lists of operand types smaller than
 a word without dividing by zero

---
 src/spv/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index e877c03..c7d7369 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -411,7 +411,7 @@ impl MemoryBlockRead for ResultId {
 
 impl<T: MemoryBlockRead> MemoryBlockRead for Vec<T> {
     fn read(mut block: MemoryBlock) -> MemoryBlockResult<Vec<T>> {
-        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
+        let item_word_size = std::cmp::max(1, std::mem::size_of::<T>() / 4);
         let assumed_size = block.remaining() / item_word_size;
         let mut items = Vec::with_capacity(assumed_size);
         while block.remaining() > 0 {
-- 
2.43.0

