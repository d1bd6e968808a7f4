---------------------------- MODULE Grammar ----------------------------
(* The instruction set: opcodes, operands, enumerants, flags.  Generated by   *)
(* tools/gen.py from tools/tables.py, which is reviewed against SPIR-V 1.0.   *)
EXTENDS Naturals, Sequences, TLC

(* Opcode number -> name and operand kinds in wire order. *)
Ops == (0 :> [name |-> "OpNop", f |-> <<>>]) @@
  (1 :> [name |-> "OpUndef", f |-> <<<<"id", "">>, <<"res", "">>>>]) @@
  (2 :> [name |-> "OpSourceContinued", f |-> <<<<"str", "">>>>]) @@
  (3 :> [name |-> "OpSource", f |-> <<<<"srclang", "">>, <<"ver", "">>, <<"optid", "">>, <<"optstr", "">>>>]) @@
  (4 :> [name |-> "OpSourceExtension", f |-> <<<<"str", "">>>>]) @@
  (5 :> [name |-> "OpName", f |-> <<<<"id", "">>, <<"str", "">>>>]) @@
  (6 :> [name |-> "OpMemberName", f |-> <<<<"id", "">>, <<"member", "">>, <<"str", "">>>>]) @@
  (7 :> [name |-> "OpString", f |-> <<<<"res", "">>, <<"str", "">>>>]) @@
  (10 :> [name |-> "OpExtension", f |-> <<<<"str", "">>>>]) @@
  (11 :> [name |-> "OpExtInstImport", f |-> <<<<"res", "">>, <<"str", "">>>>]) @@
  (12 :> [name |-> "OpExtInst", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"ext", "">>>>]) @@
  (14 :> [name |-> "OpMemoryModel", f |-> <<<<"enum", "AddressingModel">>, <<"enum", "MemoryModel">>>>]) @@
  (15 :> [name |-> "OpEntryPoint", f |-> <<<<"enum", "ExecutionModel">>, <<"id", "">>, <<"str", "">>, <<"vecid", "">>>>]) @@
  (16 :> [name |-> "OpExecutionMode", f |-> <<<<"id", "">>, <<"comp", "ExecutionMode">>>>]) @@
  (17 :> [name |-> "OpCapability", f |-> <<<<"enum", "Capability">>>>]) @@
  (19 :> [name |-> "OpTypeVoid", f |-> <<<<"res", "">>>>]) @@
  (20 :> [name |-> "OpTypeBool", f |-> <<<<"res", "">>>>]) @@
  (21 :> [name |-> "OpTypeInt", f |-> <<<<"res", "">>, <<"u32", "">>, <<"enum", "Signedness">>>>]) @@
  (22 :> [name |-> "OpTypeFloat", f |-> <<<<"res", "">>, <<"u32", "">>>>]) @@
  (23 :> [name |-> "OpTypeVector", f |-> <<<<"res", "">>, <<"id", "">>, <<"u32", "">>>>]) @@
  (24 :> [name |-> "OpTypeMatrix", f |-> <<<<"res", "">>, <<"id", "">>, <<"u32", "">>>>]) @@
  (25 :> [name |-> "OpTypeImage", f |-> <<<<"res", "">>, <<"id", "">>, <<"enum", "Dim">>, <<"enum", "DepthStatus">>, <<"enum", "Arrayed">>, <<"enum", "MS">>, <<"enum", "SampledStatus">>, <<"enum", "ImageFormat">>, <<"optenum", "AccessQualifier">>>>]) @@
  (26 :> [name |-> "OpTypeSampler", f |-> <<<<"res", "">>>>]) @@
  (27 :> [name |-> "OpTypeSampledImage", f |-> <<<<"res", "">>, <<"id", "">>>>]) @@
  (28 :> [name |-> "OpTypeArray", f |-> <<<<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (29 :> [name |-> "OpTypeRuntimeArray", f |-> <<<<"res", "">>, <<"id", "">>>>]) @@
  (30 :> [name |-> "OpTypeStruct", f |-> <<<<"res", "">>, <<"vecid", "">>>>]) @@
  (31 :> [name |-> "OpTypeOpaque", f |-> <<<<"res", "">>, <<"str", "">>>>]) @@
  (32 :> [name |-> "OpTypePointer", f |-> <<<<"res", "">>, <<"enum", "StorageClass">>, <<"id", "">>>>]) @@
  (33 :> [name |-> "OpTypeFunction", f |-> <<<<"res", "">>, <<"id", "">>, <<"vecid", "">>>>]) @@
  (43 :> [name |-> "OpConstant", f |-> <<<<"id", "">>, <<"res", "">>, <<"vecu32", "">>>>]) @@
  (44 :> [name |-> "OpConstantComposite", f |-> <<<<"id", "">>, <<"res", "">>, <<"vecid", "">>>>]) @@
  (54 :> [name |-> "OpFunction", f |-> <<<<"id", "">>, <<"res", "">>, <<"mask", "FunctionControl">>, <<"id", "">>>>]) @@
  (55 :> [name |-> "OpFunctionParameter", f |-> <<<<"id", "">>, <<"res", "">>>>]) @@
  (56 :> [name |-> "OpFunctionEnd", f |-> <<>>]) @@
  (59 :> [name |-> "OpVariable", f |-> <<<<"id", "">>, <<"res", "">>, <<"enum", "StorageClass">>, <<"optid", "">>>>]) @@
  (61 :> [name |-> "OpLoad", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"optmask", "MemoryAccess">>>>]) @@
  (62 :> [name |-> "OpStore", f |-> <<<<"id", "">>, <<"id", "">>, <<"optmask", "MemoryAccess">>>>]) @@
  (65 :> [name |-> "OpAccessChain", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"vecid", "">>>>]) @@
  (71 :> [name |-> "OpDecorate", f |-> <<<<"id", "">>, <<"comp", "Decoration">>>>]) @@
  (72 :> [name |-> "OpMemberDecorate", f |-> <<<<"id", "">>, <<"member", "">>, <<"comp", "Decoration">>>>]) @@
  (112 :> [name |-> "OpConvertUToF", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>]) @@
  (124 :> [name |-> "OpBitcast", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>]) @@
  (128 :> [name |-> "OpIAdd", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (129 :> [name |-> "OpFAdd", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (130 :> [name |-> "OpISub", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (131 :> [name |-> "OpFSub", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (132 :> [name |-> "OpIMul", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (133 :> [name |-> "OpFMul", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (134 :> [name |-> "OpUDiv", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (135 :> [name |-> "OpSDiv", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (136 :> [name |-> "OpFDiv", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (137 :> [name |-> "OpUMod", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (138 :> [name |-> "OpSRem", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (139 :> [name |-> "OpSMod", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (140 :> [name |-> "OpFRem", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (141 :> [name |-> "OpFMod", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (149 :> [name |-> "OpIAddCarry", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (150 :> [name |-> "OpISubBorrow", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (151 :> [name |-> "OpUMulExtended", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (152 :> [name |-> "OpSMulExtended", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (197 :> [name |-> "OpBitwiseOr", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (198 :> [name |-> "OpBitwiseXor", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (199 :> [name |-> "OpBitwiseAnd", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (170 :> [name |-> "OpIEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (171 :> [name |-> "OpINotEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (172 :> [name |-> "OpUGreaterThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (173 :> [name |-> "OpSGreaterThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (174 :> [name |-> "OpUGreaterThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (175 :> [name |-> "OpSGreaterThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (176 :> [name |-> "OpULessThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (177 :> [name |-> "OpSLessThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (178 :> [name |-> "OpULessThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (179 :> [name |-> "OpSLessThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (180 :> [name |-> "OpFOrdEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (181 :> [name |-> "OpFUnordEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (182 :> [name |-> "OpFOrdNotEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (183 :> [name |-> "OpFUnordNotEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (184 :> [name |-> "OpFOrdLessThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (185 :> [name |-> "OpFUnordLessThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (186 :> [name |-> "OpFOrdGreaterThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (187 :> [name |-> "OpFUnordGreaterThan", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (188 :> [name |-> "OpFOrdLessThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (189 :> [name |-> "OpFUnordLessThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (190 :> [name |-> "OpFOrdGreaterThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (191 :> [name |-> "OpFUnordGreaterThanEqual", f |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>]) @@
  (245 :> [name |-> "OpPhi", f |-> <<<<"id", "">>, <<"res", "">>, <<"phi", "">>>>]) @@
  (246 :> [name |-> "OpLoopMerge", f |-> <<<<"id", "">>, <<"id", "">>, <<"mask", "LoopControl">>>>]) @@
  (247 :> [name |-> "OpSelectionMerge", f |-> <<<<"id", "">>, <<"mask", "SelectionControl">>>>]) @@
  (248 :> [name |-> "OpLabel", f |-> <<<<"res", "">>>>]) @@
  (249 :> [name |-> "OpBranch", f |-> <<<<"id", "">>>>]) @@
  (250 :> [name |-> "OpBranchConditional", f |-> <<<<"id", "">>, <<"id", "">>, <<"id", "">>, <<"weights", "">>>>]) @@
  (253 :> [name |-> "OpReturn", f |-> <<>>])

(* Operand kinds by name, also for instructions that cannot be read. *)
FieldsOf == [OpNop |-> <<>>,
  OpUndef |-> <<<<"id", "">>, <<"res", "">>>>,
  OpSourceContinued |-> <<<<"str", "">>>>,
  OpSource |-> <<<<"srclang", "">>, <<"ver", "">>, <<"optid", "">>, <<"optstr", "">>>>,
  OpSourceExtension |-> <<<<"str", "">>>>,
  OpName |-> <<<<"id", "">>, <<"str", "">>>>,
  OpMemberName |-> <<<<"id", "">>, <<"member", "">>, <<"str", "">>>>,
  OpString |-> <<<<"res", "">>, <<"str", "">>>>,
  OpExtension |-> <<<<"str", "">>>>,
  OpExtInstImport |-> <<<<"res", "">>, <<"str", "">>>>,
  OpExtInst |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"ext", "">>>>,
  OpMemoryModel |-> <<<<"enum", "AddressingModel">>, <<"enum", "MemoryModel">>>>,
  OpEntryPoint |-> <<<<"enum", "ExecutionModel">>, <<"id", "">>, <<"str", "">>, <<"vecid", "">>>>,
  OpExecutionMode |-> <<<<"id", "">>, <<"comp", "ExecutionMode">>>>,
  OpCapability |-> <<<<"enum", "Capability">>>>,
  OpTypeVoid |-> <<<<"res", "">>>>,
  OpTypeBool |-> <<<<"res", "">>>>,
  OpTypeInt |-> <<<<"res", "">>, <<"u32", "">>, <<"enum", "Signedness">>>>,
  OpTypeFloat |-> <<<<"res", "">>, <<"u32", "">>>>,
  OpTypeVector |-> <<<<"res", "">>, <<"id", "">>, <<"u32", "">>>>,
  OpTypeMatrix |-> <<<<"res", "">>, <<"id", "">>, <<"u32", "">>>>,
  OpTypeImage |-> <<<<"res", "">>, <<"id", "">>, <<"enum", "Dim">>, <<"enum", "DepthStatus">>, <<"enum", "Arrayed">>, <<"enum", "MS">>, <<"enum", "SampledStatus">>, <<"enum", "ImageFormat">>, <<"optenum", "AccessQualifier">>>>,
  OpTypeSampler |-> <<<<"res", "">>>>,
  OpTypeSampledImage |-> <<<<"res", "">>, <<"id", "">>>>,
  OpTypeArray |-> <<<<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpTypeRuntimeArray |-> <<<<"res", "">>, <<"id", "">>>>,
  OpTypeStruct |-> <<<<"res", "">>, <<"vecid", "">>>>,
  OpTypeOpaque |-> <<<<"res", "">>, <<"str", "">>>>,
  OpTypePointer |-> <<<<"res", "">>, <<"enum", "StorageClass">>, <<"id", "">>>>,
  OpTypeFunction |-> <<<<"res", "">>, <<"id", "">>, <<"vecid", "">>>>,
  OpTypeEvent |-> <<<<"res", "">>>>,
  OpTypeDeviceEvent |-> <<<<"res", "">>>>,
  OpTypeQueue |-> <<<<"res", "">>>>,
  OpTypePipe |-> <<<<"res", "">>, <<"enum", "AccessQualifier">>>>,
  OpTypeForwardPointer |-> <<<<"id", "">>, <<"enum", "StorageClass">>>>,
  OpConstant |-> <<<<"id", "">>, <<"res", "">>, <<"vecu32", "">>>>,
  OpConstantComposite |-> <<<<"id", "">>, <<"res", "">>, <<"vecid", "">>>>,
  OpFunction |-> <<<<"id", "">>, <<"res", "">>, <<"mask", "FunctionControl">>, <<"id", "">>>>,
  OpFunctionParameter |-> <<<<"id", "">>, <<"res", "">>>>,
  OpFunctionEnd |-> <<>>,
  OpVariable |-> <<<<"id", "">>, <<"res", "">>, <<"enum", "StorageClass">>, <<"optid", "">>>>,
  OpLoad |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"optmask", "MemoryAccess">>>>,
  OpStore |-> <<<<"id", "">>, <<"id", "">>, <<"optmask", "MemoryAccess">>>>,
  OpAccessChain |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"vecid", "">>>>,
  OpDecorate |-> <<<<"id", "">>, <<"comp", "Decoration">>>>,
  OpMemberDecorate |-> <<<<"id", "">>, <<"member", "">>, <<"comp", "Decoration">>>>,
  OpConvertUToF |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpBitcast |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpIAdd |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFAdd |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpISub |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFSub |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpIMul |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFMul |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpUDiv |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSDiv |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFDiv |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpUMod |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSRem |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSMod |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFRem |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFMod |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpIAddCarry |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpISubBorrow |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpUMulExtended |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSMulExtended |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpBitwiseOr |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpBitwiseXor |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpBitwiseAnd |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpIEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpINotEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpUGreaterThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSGreaterThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpUGreaterThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSGreaterThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpULessThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSLessThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpULessThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpSLessThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFOrdEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFUnordEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFOrdNotEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFUnordNotEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFOrdLessThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFUnordLessThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFOrdGreaterThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFUnordGreaterThan |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFOrdLessThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFUnordLessThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFOrdGreaterThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpFUnordGreaterThanEqual |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpPhi |-> <<<<"id", "">>, <<"res", "">>, <<"phi", "">>>>,
  OpLoopMerge |-> <<<<"id", "">>, <<"id", "">>, <<"mask", "LoopControl">>>>,
  OpSelectionMerge |-> <<<<"id", "">>, <<"mask", "SelectionControl">>>>,
  OpLabel |-> <<<<"res", "">>>>,
  OpBranch |-> <<<<"id", "">>>>,
  OpBranchConditional |-> <<<<"id", "">>, <<"id", "">>, <<"id", "">>, <<"weights", "">>>>,
  OpReturn |-> <<>>,
  OpLine |-> <<<<"id", "">>, <<"line", "">>, <<"column", "">>>>,
  OpNoLine |-> <<>>,
  OpDecorationGroup |-> <<<<"res", "">>>>,
  OpGroupDecorate |-> <<<<"id", "">>, <<"vecid", "">>>>,
  OpTypeReserveId |-> <<<<"res", "">>>>,
  OpConstantTrue |-> <<<<"id", "">>, <<"res", "">>>>,
  OpConstantFalse |-> <<<<"id", "">>, <<"res", "">>>>,
  OpConstantSampler |-> <<<<"id", "">>, <<"res", "">>, <<"enum", "SamplerAddressingMode">>, <<"enum", "SamplerParam">>, <<"enum", "SamplerFilterMode">>>>,
  OpConstantNull |-> <<<<"id", "">>, <<"res", "">>>>,
  OpSpecConstantTrue |-> <<<<"id", "">>, <<"res", "">>>>,
  OpSpecConstantFalse |-> <<<<"id", "">>, <<"res", "">>>>,
  OpSpecConstant |-> <<<<"id", "">>, <<"res", "">>, <<"vecu32", "">>>>,
  OpSpecConstantComposite |-> <<<<"id", "">>, <<"res", "">>, <<"vecid", "">>>>,
  OpImageTexelPointer |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>, <<"id", "">>>>,
  OpCopyMemory |-> <<<<"id", "">>, <<"id", "">>, <<"optmask", "MemoryAccess">>>>,
  OpCopyMemorySized |-> <<<<"id", "">>, <<"id", "">>, <<"id", "">>, <<"optmask", "MemoryAccess">>>>,
  OpInBoundsAccessChain |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"vecid", "">>>>,
  OpPtrAccessChain |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>, <<"vecid", "">>>>,
  OpArrayLength |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"member", "">>>>,
  OpGenericPtrMemSemantics |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpInBoundsPtrAccessChain |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>, <<"vecid", "">>>>,
  OpFunctionCall |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"vecid", "">>>>,
  OpSampledImage |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpConvertFToU |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpConvertFToS |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpConvertSToF |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpUConvert |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpSConvert |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpFConvert |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpQuantizeToF16 |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpConvertPtrToU |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpSatConvertSToU |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpSatConvertUToS |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpConvertUToPtr |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpPtrCastToGeneric |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpGenericCastToPtr |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpGenericCastToPtrExplicit |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"enum", "StorageClass">>>>,
  OpVectorExtractDynamic |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpVectorInsertDynamic |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>, <<"id", "">>>>,
  OpVectorShuffle |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>, <<"vecmember", "">>>>,
  OpCompositeConstruct |-> <<<<"id", "">>, <<"res", "">>, <<"vecmember", "">>>>,
  OpCompositeExtract |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"vecmember", "">>>>,
  OpCompositeInsert |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>, <<"vecmember", "">>>>,
  OpCopyObject |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpTranspose |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpSNegate |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpFNegate |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>,
  OpVectorTimesScalar |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpMatrixTimesScalar |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpVectorTimesMatrix |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpMatrixTimesVector |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpMatrixTimesMatrix |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpOuterProduct |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpDot |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpShiftRightLogical |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpShiftRightArithmetic |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpShiftLeftLogical |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>, <<"id", "">>>>,
  OpNot |-> <<<<"id", "">>, <<"res", "">>, <<"id", "">>>>]

(* Instructions that can be built and shown but are never part of a module. *)
LooseOps == {"OpLine", "OpNoLine", "OpDecorationGroup", "OpGroupDecorate", "OpTypeReserveId", "OpConstantTrue", "OpConstantFalse", "OpConstantSampler", "OpConstantNull", "OpSpecConstantTrue", "OpSpecConstantFalse", "OpSpecConstant", "OpSpecConstantComposite", "OpImageTexelPointer", "OpCopyMemory", "OpCopyMemorySized", "OpInBoundsAccessChain", "OpPtrAccessChain", "OpArrayLength", "OpGenericPtrMemSemantics", "OpInBoundsPtrAccessChain", "OpFunctionCall", "OpSampledImage", "OpConvertFToU", "OpConvertFToS", "OpConvertSToF", "OpUConvert", "OpSConvert", "OpFConvert", "OpQuantizeToF16", "OpConvertPtrToU", "OpSatConvertSToU", "OpSatConvertUToS", "OpConvertUToPtr", "OpPtrCastToGeneric", "OpGenericCastToPtr", "OpGenericCastToPtrExplicit", "OpVectorExtractDynamic", "OpVectorInsertDynamic", "OpVectorShuffle", "OpCompositeConstruct", "OpCompositeExtract", "OpCompositeInsert", "OpCopyObject", "OpTranspose", "OpSNegate", "OpFNegate", "OpVectorTimesScalar", "OpMatrixTimesScalar", "OpVectorTimesMatrix", "OpMatrixTimesVector", "OpMatrixTimesMatrix", "OpOuterProduct", "OpDot", "OpShiftRightLogical", "OpShiftRightArithmetic", "OpShiftLeftLogical", "OpNot"}

Unsupported == (8 :> "OpLine") @@
  (41 :> "OpConstantTrue") @@
  (42 :> "OpConstantFalse") @@
  (45 :> "OpConstantSampler") @@
  (46 :> "OpConstantNull") @@
  (48 :> "OpSpecConstantTrue") @@
  (49 :> "OpSpecConstantFalse") @@
  (50 :> "OpSpecConstant") @@
  (51 :> "OpSpecConstantComposite") @@
  (52 :> "OpSpecConstantOp") @@
  (57 :> "OpFunctionCall") @@
  (60 :> "OpImageTexelPointer") @@
  (63 :> "OpCopyMemory") @@
  (64 :> "OpCopyMemorySized") @@
  (66 :> "OpInBoundsAccessChain") @@
  (67 :> "OpPtrAccessChain") @@
  (68 :> "OpArrayLength") @@
  (69 :> "OpGenericPtrMemSemantics") @@
  (70 :> "OpInBoundsPtrAccessChain") @@
  (77 :> "OpVectorExtractDynamic") @@
  (78 :> "OpVectorInsertDynamic") @@
  (79 :> "OpVectorShuffle") @@
  (80 :> "OpCompositeConstruct") @@
  (81 :> "OpCompositeExtract") @@
  (82 :> "OpCompositeInsert") @@
  (83 :> "OpCopyObject") @@
  (84 :> "OpTranspose") @@
  (86 :> "OpSampledImage") @@
  (87 :> "OpImageSampleImplicitLod") @@
  (88 :> "OpImageSampleExplicitLod") @@
  (89 :> "OpImageSampleDrefImplicitLod") @@
  (90 :> "OpImageSampleDrefExplicitLod") @@
  (91 :> "OpImageSampleProjImplicitLod") @@
  (92 :> "OpImageSampleProjExplicitLod") @@
  (93 :> "OpImageSampleProjDrefImplicitLod") @@
  (94 :> "OpImageSampleProjDrefExplicitLod") @@
  (95 :> "OpImageFetch") @@
  (96 :> "OpImageGather") @@
  (97 :> "OpImageDrefGather") @@
  (98 :> "OpImageRead") @@
  (99 :> "OpImageWrite") @@
  (100 :> "OpImage") @@
  (101 :> "OpImageQueryFormat") @@
  (102 :> "OpImageQueryOrder") @@
  (103 :> "OpImageQuerySizeLod") @@
  (104 :> "OpImageQuerySize") @@
  (105 :> "OpImageQueryLod") @@
  (106 :> "OpImageQueryLevels") @@
  (107 :> "OpImageQuerySamples") @@
  (109 :> "OpConvertFToU") @@
  (110 :> "OpConvertFToS") @@
  (111 :> "OpConvertSToF") @@
  (113 :> "OpUConvert") @@
  (114 :> "OpSConvert") @@
  (115 :> "OpFConvert") @@
  (116 :> "OpQuantizeToF16") @@
  (117 :> "OpConvertPtrToU") @@
  (118 :> "OpSatConvertSToU") @@
  (119 :> "OpSatConvertUToS") @@
  (120 :> "OpConvertUToPtr") @@
  (121 :> "OpPtrCastToGeneric") @@
  (122 :> "OpGenericCastToPtr") @@
  (123 :> "OpGenericCastToPtrExplicit") @@
  (126 :> "OpSNegate") @@
  (127 :> "OpFNegate") @@
  (142 :> "OpVectorTimesScalar") @@
  (143 :> "OpMatrixTimesScalar") @@
  (144 :> "OpVectorTimesMatrix") @@
  (145 :> "OpMatrixTimesVector") @@
  (146 :> "OpMatrixTimesMatrix") @@
  (147 :> "OpOuterProduct") @@
  (148 :> "OpDot") @@
  (154 :> "OpAny") @@
  (155 :> "OpAll") @@
  (156 :> "OpIsNan") @@
  (157 :> "OpIsInf") @@
  (158 :> "OpIsFinite") @@
  (159 :> "OpIsNormal") @@
  (160 :> "OpSignBitSet") @@
  (161 :> "OpLessOrGreater") @@
  (162 :> "OpOrdered") @@
  (163 :> "OpUnordered") @@
  (164 :> "OpLogicalEqual") @@
  (165 :> "OpLogicalNotEqual") @@
  (166 :> "OpLogicalOr") @@
  (167 :> "OpLogicalAnd") @@
  (168 :> "OpLogicalNot") @@
  (169 :> "OpSelect") @@
  (194 :> "OpShiftRightLogical") @@
  (195 :> "OpShiftRightArithmetic") @@
  (196 :> "OpShiftLeftLogical") @@
  (200 :> "OpNot") @@
  (201 :> "OpBitFieldInsert") @@
  (202 :> "OpBitFieldSExtract") @@
  (203 :> "OpBitFieldUExtract") @@
  (204 :> "OpBitReverse") @@
  (205 :> "OpBitCount") @@
  (207 :> "OpDPdx") @@
  (208 :> "OpDPdy") @@
  (209 :> "OpFwidth") @@
  (210 :> "OpDPdxFine") @@
  (211 :> "OpDPdyFine") @@
  (212 :> "OpFwidthFine") @@
  (213 :> "OpDPdxCoarse") @@
  (214 :> "OpDPdyCoarse") @@
  (215 :> "OpFwidthCoarse") @@
  (218 :> "OpEmitVertex") @@
  (219 :> "OpEndPrimitive") @@
  (220 :> "OpEmitStreamVertex") @@
  (221 :> "OpEndStreamPrimitive") @@
  (224 :> "OpControlBarrier") @@
  (225 :> "OpMemoryBarrier") @@
  (227 :> "OpAtomicLoad") @@
  (228 :> "OpAtomicStore") @@
  (229 :> "OpAtomicExchange") @@
  (230 :> "OpAtomicCompareExchange") @@
  (231 :> "OpAtomicCompareExchangeWeak") @@
  (232 :> "OpAtomicIIncrement") @@
  (233 :> "OpAtomicIDecrement") @@
  (234 :> "OpAtomicIAdd") @@
  (235 :> "OpAtomicISub") @@
  (236 :> "OpAtomicSMin") @@
  (237 :> "OpAtomicUMin") @@
  (238 :> "OpAtomicSMax") @@
  (239 :> "OpAtomicUMax") @@
  (240 :> "OpAtomicAnd") @@
  (241 :> "OpAtomicOr") @@
  (242 :> "OpAtomicXor") @@
  (251 :> "OpSwitch") @@
  (252 :> "OpKill") @@
  (254 :> "OpReturnValue") @@
  (255 :> "OpUnreachable") @@
  (256 :> "OpLifetimeStart") @@
  (257 :> "OpLifetimeStop") @@
  (259 :> "OpGroupAsyncCopy") @@
  (260 :> "OpGroupWaitEvents") @@
  (261 :> "OpGroupAll") @@
  (262 :> "OpGroupAny") @@
  (263 :> "OpGroupBroadcast") @@
  (264 :> "OpGroupIAdd") @@
  (265 :> "OpGroupFAdd") @@
  (266 :> "OpGroupFMin") @@
  (267 :> "OpGroupUMin") @@
  (268 :> "OpGroupSMin") @@
  (269 :> "OpGroupFMax") @@
  (270 :> "OpGroupUMax") @@
  (271 :> "OpGroupSMax") @@
  (274 :> "OpReadPipe") @@
  (275 :> "OpWritePipe") @@
  (276 :> "OpReservedReadPipe") @@
  (277 :> "OpReservedWritePipe") @@
  (278 :> "OpReserveReadPipePackets") @@
  (279 :> "OpReserveWritePipePackets") @@
  (280 :> "OpCommitReadPipe") @@
  (281 :> "OpCommitWritePipe") @@
  (282 :> "OpIsValidReserveId") @@
  (283 :> "OpGetNumPipePackets") @@
  (284 :> "OpGetMaxPipePackets") @@
  (285 :> "OpGroupReserveReadPipePackets") @@
  (286 :> "OpGroupReserveWritePipePackets") @@
  (287 :> "OpGroupCommitReadPipe") @@
  (288 :> "OpGroupCommitWritePipe") @@
  (291 :> "OpEnqueueMarker") @@
  (292 :> "OpEnqueueKernel") @@
  (293 :> "OpGetKernelNDrangeSubGroupCount") @@
  (294 :> "OpGetKernelNDrangeMaxSubGroupSize") @@
  (295 :> "OpGetKernelWorkGroupSize") @@
  (296 :> "OpGetKernelPreferredWorkGroupSizeMultiple") @@
  (297 :> "OpRetainEvent") @@
  (298 :> "OpReleaseEvent") @@
  (299 :> "OpCreateUserEvent") @@
  (300 :> "OpIsValidEvent") @@
  (301 :> "OpSetUserEventStatus") @@
  (302 :> "OpCaptureEventProfilingInfo") @@
  (303 :> "OpGetDefaultQueue") @@
  (304 :> "OpBuildNDRange") @@
  (305 :> "OpImageSparseSampleImplicitLod") @@
  (306 :> "OpImageSparseSampleExplicitLod") @@
  (307 :> "OpImageSparseSampleDrefImplicitLod") @@
  (308 :> "OpImageSparseSampleDrefExplicitLod") @@
  (309 :> "OpImageSparseSampleProjImplicitLod") @@
  (310 :> "OpImageSparseSampleProjExplicitLod") @@
  (311 :> "OpImageSparseSampleProjDrefImplicitLod") @@
  (312 :> "OpImageSparseSampleProjDrefExplicitLod") @@
  (313 :> "OpImageSparseFetch") @@
  (314 :> "OpImageSparseGather") @@
  (315 :> "OpImageSparseDrefGather") @@
  (316 :> "OpImageSparseTexelsResident") @@
  (317 :> "OpNoLine") @@
  (318 :> "OpAtomicFlagTestAndSet") @@
  (319 :> "OpAtomicFlagClear") @@
  (320 :> "OpImageSparseRead")

(* Enumerated operands: value -> variant, operands; variant -> text. *)
EnumVal == [SamplerAddressingMode |-> (0 :> "None" @@ 1 :> "ClampToEdge" @@ 2 :> "Clamp" @@ 3 :> "Repeat" @@ 4 :> "RepeatMirrored"),
  SamplerParam |-> (0 :> "NonNormalized" @@ 1 :> "Normalized"),
  SamplerFilterMode |-> (0 :> "Nearest" @@ 1 :> "Linear"),
  AddressingModel |-> (0 :> "Logical" @@ 1 :> "Physical32" @@ 2 :> "Physical64"),
  MemoryModel |-> (0 :> "Simple" @@ 1 :> "Glsl450" @@ 2 :> "OpenCL"),
  ExecutionModel |-> (0 :> "Vertex" @@ 1 :> "TesselationControl" @@ 2 :> "TesselationEvaluation" @@ 3 :> "Geometry" @@ 4 :> "Fragment" @@ 5 :> "GlCompute" @@ 6 :> "Kernel"),
  Capability |-> (0 :> "Matrix" @@ 1 :> "Shader" @@ 2 :> "Geometry" @@ 3 :> "Tessellation" @@ 4 :> "Addresses" @@ 5 :> "Linkage" @@ 6 :> "Kernel" @@ 7 :> "Vector16" @@ 8 :> "Float16Buffer" @@ 9 :> "Float16" @@ 10 :> "Float64" @@ 11 :> "Int64" @@ 12 :> "Int64Atomics" @@ 13 :> "ImageBasic" @@ 14 :> "ImageReadWrite" @@ 15 :> "ImageMipmap" @@ 17 :> "Pipes" @@ 18 :> "Groups" @@ 19 :> "DeviceEnqueue" @@ 20 :> "LiteralSampler" @@ 21 :> "AtomicStorage" @@ 22 :> "Int16" @@ 23 :> "TessellationPointSize" @@ 24 :> "GeometryPointSize" @@ 25 :> "ImageGatherExtended" @@ 27 :> "StorageImageMultisample" @@ 28 :> "UniformBufferArrayDynamicIndexing" @@ 29 :> "SampledImageArrayDynamicIndexing" @@ 30 :> "StorageBufferArrayDynamicIndexing" @@ 31 :> "StorageImageArrayDynamicIndexing" @@ 32 :> "ClipDistance" @@ 33 :> "CullDistance" @@ 34 :> "ImageCubeArray" @@ 35 :> "SampleRateShading" @@ 36 :> "ImageRect" @@ 37 :> "SampledRect" @@ 38 :> "GenericPointer" @@ 39 :> "Int8" @@ 40 :> "InputAttachment" @@ 41 :> "SparseResidency" @@ 42 :> "MinLod" @@ 43 :> "Sampled1D" @@ 44 :> "Image1D" @@ 45 :> "SampledCubeArray" @@ 46 :> "SampledBuffer" @@ 47 :> "ImageBuffer" @@ 48 :> "ImageMSArray" @@ 49 :> "StorageImageExtendedFormats" @@ 50 :> "ImageQuery" @@ 51 :> "DerivativeControl" @@ 52 :> "InterpolationFunction" @@ 53 :> "TransformFeedback" @@ 54 :> "GeometryStreams" @@ 55 :> "StorageImageReadWithoutFormat" @@ 56 :> "StorageImageWriteWithoutFormat" @@ 57 :> "MultiViewport"),
  Signedness |-> (0 :> "UnsignedOrNone" @@ 1 :> "Signed"),
  Dim |-> (0 :> "Tex1D" @@ 1 :> "Tex2D" @@ 2 :> "Tex3D" @@ 3 :> "Cube" @@ 4 :> "Rect" @@ 5 :> "Buffer" @@ 6 :> "SubpassData"),
  DepthStatus |-> (0 :> "NotDepth" @@ 1 :> "Depth" @@ 2 :> "NoIndication"),
  Arrayed |-> (0 :> "False" @@ 1 :> "True"),
  MS |-> (0 :> "Single" @@ 1 :> "Multi"),
  SampledStatus |-> (0 :> "RuntimeChoice" @@ 1 :> "WithSampler" @@ 2 :> "WithoutSampler"),
  ImageFormat |-> (0 :> "Unknown" @@ 1 :> "Rgba32f" @@ 2 :> "Rgba16f" @@ 3 :> "R32f" @@ 4 :> "Rgba8" @@ 5 :> "Rgba8Snorm" @@ 6 :> "Rg32f" @@ 7 :> "Rg16f" @@ 8 :> "R11fG11fB10f" @@ 9 :> "R16f" @@ 10 :> "Rgba16" @@ 11 :> "Rgb10A2" @@ 12 :> "Rg16" @@ 13 :> "Rg8" @@ 14 :> "R16" @@ 15 :> "R8" @@ 16 :> "Rgba16Snorm" @@ 17 :> "Rg16Snorm" @@ 18 :> "Rg8Snorm" @@ 19 :> "R16Snorm" @@ 20 :> "R8Snorm" @@ 21 :> "Rgba32i" @@ 22 :> "Rgba16i" @@ 23 :> "Rgba8i" @@ 24 :> "R32i" @@ 25 :> "Rg32i" @@ 26 :> "Rg16i" @@ 27 :> "Rg8i" @@ 28 :> "R16i" @@ 29 :> "R8i" @@ 30 :> "Rgba32ui" @@ 31 :> "Rgba16ui" @@ 32 :> "Rgba8ui" @@ 33 :> "R32ui" @@ 34 :> "Rgb10a2ui" @@ 35 :> "Rg32ui" @@ 36 :> "Rg16ui" @@ 37 :> "Rg8ui" @@ 38 :> "R16ui" @@ 39 :> "R8ui"),
  AccessQualifier |-> (0 :> "ReadOnly" @@ 1 :> "WriteOnly" @@ 2 :> "ReadWrite"),
  StorageClass |-> (0 :> "UniformConstant" @@ 1 :> "Input" @@ 2 :> "Uniform" @@ 3 :> "Output" @@ 4 :> "Workgroup" @@ 5 :> "CrossWorkgroup" @@ 6 :> "Private" @@ 7 :> "Function" @@ 8 :> "Generic" @@ 9 :> "PushConstant" @@ 10 :> "AtomicCounter" @@ 11 :> "Image"),
  BuiltIn |-> (0 :> "Position" @@ 1 :> "PointSize" @@ 3 :> "ClipDistance" @@ 4 :> "CullDistance" @@ 5 :> "VertexId" @@ 6 :> "InstanceId" @@ 7 :> "PrimitiveId" @@ 8 :> "InvocationId" @@ 9 :> "Layer" @@ 10 :> "ViewportIndex" @@ 11 :> "TessLevelOuter" @@ 12 :> "TessLevelInner" @@ 13 :> "TessCoord" @@ 14 :> "PatchVerticies" @@ 15 :> "FragCoord" @@ 16 :> "PointCoord" @@ 17 :> "FrontFacing" @@ 18 :> "SampleId" @@ 19 :> "SamplePosition" @@ 20 :> "SampleMask" @@ 22 :> "FragDepth" @@ 23 :> "HelperInvocation" @@ 24 :> "NumWorkgroups" @@ 25 :> "WorkgroupSize" @@ 26 :> "WorkgroupId" @@ 27 :> "LocalInvocationId" @@ 28 :> "GlobalInvocationId" @@ 29 :> "LocalInvocationIndex" @@ 30 :> "WorkDim" @@ 31 :> "GlobalSize" @@ 32 :> "EnqueuedWorkgroupSize" @@ 33 :> "GlobalOffset" @@ 34 :> "GlobalLinearId" @@ 36 :> "SubgroupSize" @@ 37 :> "SubgroupMaxSize" @@ 38 :> "NumSubgroups" @@ 39 :> "NumEnqueuedSubgroups" @@ 40 :> "SubgroupId" @@ 41 :> "SubgroupLocalInvocationId" @@ 42 :> "VertexIndex" @@ 43 :> "InstanceIndex"),
  FunctionParameterAttribute |-> (0 :> "Zext" @@ 1 :> "Sext" @@ 2 :> "ByVal" @@ 3 :> "Sret" @@ 4 :> "NoAlias" @@ 5 :> "NoCapture" @@ 6 :> "NoWrite" @@ 7 :> "NoReadWrite"),
  FpRoundingMode |-> (0 :> "Rte" @@ 1 :> "Rtz" @@ 2 :> "Rtp" @@ 3 :> "Rtn"),
  LinkageType |-> (0 :> "Export" @@ 1 :> "Import"),
  ExecutionMode |-> (0 :> "Invocations" @@ 1 :> "SpacingEqual" @@ 2 :> "SpacingFractionalEven" @@ 3 :> "SpacingFractionalOdd" @@ 4 :> "VertexOrderCw" @@ 5 :> "VertexOrderCcw" @@ 6 :> "PixelCenterInteger" @@ 7 :> "OriginUpperLeft" @@ 8 :> "OriginLowerLeft" @@ 9 :> "EarlyFragmentTests" @@ 10 :> "PointMode" @@ 11 :> "Xfb" @@ 12 :> "DepthReplacing" @@ 14 :> "DepthGreater" @@ 15 :> "DepthLess" @@ 16 :> "DepthUnchanged" @@ 17 :> "LocalSize" @@ 18 :> "LocalSizeHint" @@ 19 :> "InputPoints" @@ 20 :> "InputLines" @@ 21 :> "InputLinesAdjacency" @@ 22 :> "Triangles" @@ 23 :> "InputTrianglesAdjacency" @@ 24 :> "Quads" @@ 25 :> "Isolines" @@ 26 :> "OutputVerticies" @@ 27 :> "OutputPoints" @@ 28 :> "OutputLineStrip" @@ 29 :> "OutputTriangleStrip" @@ 30 :> "VecTypeHint" @@ 31 :> "ContractionOff"),
  Decoration |-> (0 :> "RelaxedPrecision" @@ 1 :> "SpecId" @@ 2 :> "Block" @@ 3 :> "BufferBlock" @@ 4 :> "RowMajor" @@ 5 :> "ColMajor" @@ 6 :> "ArrayStride" @@ 7 :> "MatrixStride" @@ 8 :> "GlslShared" @@ 9 :> "GlslPacked" @@ 10 :> "CPacked" @@ 11 :> "BuiltIn" @@ 13 :> "NoPerspective" @@ 14 :> "Flat" @@ 15 :> "Patch" @@ 16 :> "Centroid" @@ 17 :> "Sample" @@ 18 :> "Invariant" @@ 19 :> "Restrict" @@ 20 :> "Aliased" @@ 21 :> "Volatile" @@ 22 :> "Constant" @@ 23 :> "Coherent" @@ 24 :> "NonWritable" @@ 25 :> "NonReadable" @@ 26 :> "Uniform" @@ 28 :> "SaturatedConversion" @@ 29 :> "Stream" @@ 30 :> "Location" @@ 31 :> "Component" @@ 32 :> "Index" @@ 33 :> "Binding" @@ 34 :> "DescriptorSet" @@ 35 :> "Offset" @@ 36 :> "XfbBuffer" @@ 37 :> "XfbStride" @@ 38 :> "FuncParamAttr" @@ 39 :> "FpRoundingMode" @@ 40 :> "FpFastMathMode" @@ 41 :> "LinkageAttributes" @@ 42 :> "NoContraction" @@ 43 :> "InputAttachmentIndex" @@ 44 :> "Alignment")]

EnumText == [SamplerAddressingMode |-> ("None" :> "None" @@ "ClampToEdge" :> "ClampToEdge" @@ "Clamp" :> "Clamp" @@ "Repeat" :> "Repeat" @@ "RepeatMirrored" :> "RepeatMirrored"),
  SamplerParam |-> ("NonNormalized" :> "0" @@ "Normalized" :> "1"),
  SamplerFilterMode |-> ("Nearest" :> "Nearest" @@ "Linear" :> "Linear"),
  AddressingModel |-> ("Logical" :> "Logical" @@ "Physical32" :> "Physical32" @@ "Physical64" :> "Physical64"),
  MemoryModel |-> ("Simple" :> "Simple" @@ "Glsl450" :> "GLSL450" @@ "OpenCL" :> "OpenCL"),
  ExecutionModel |-> ("Vertex" :> "Vertex" @@ "TesselationControl" :> "TesselationControl" @@ "TesselationEvaluation" :> "TesselationEvaluation" @@ "Geometry" :> "Geometry" @@ "Fragment" :> "Fragment" @@ "GlCompute" :> "GLCompute" @@ "Kernel" :> "Kernel"),
  Capability |-> ("Matrix" :> "Matrix" @@ "Shader" :> "Shader" @@ "Geometry" :> "Geometry" @@ "Tessellation" :> "Tessellation" @@ "Addresses" :> "Addresses" @@ "Linkage" :> "Linkage" @@ "Kernel" :> "Kernel" @@ "Vector16" :> "Vector16" @@ "Float16Buffer" :> "Float16Buffer" @@ "Float16" :> "Float16" @@ "Float64" :> "Float64" @@ "Int64" :> "Int64" @@ "Int64Atomics" :> "Int64Atomics" @@ "ImageBasic" :> "ImageBasic" @@ "ImageReadWrite" :> "ImageReadWrite" @@ "ImageMipmap" :> "ImageMipmap" @@ "Pipes" :> "Pipes" @@ "Groups" :> "Groups" @@ "DeviceEnqueue" :> "DeviceEnqueue" @@ "LiteralSampler" :> "LiteralSampler" @@ "AtomicStorage" :> "AtomicStorage" @@ "Int16" :> "Int16" @@ "TessellationPointSize" :> "TessellationPointSize" @@ "GeometryPointSize" :> "GeometryPointSize" @@ "ImageGatherExtended" :> "ImageGatherExtended" @@ "StorageImageMultisample" :> "StorageImageMultisample" @@ "UniformBufferArrayDynamicIndexing" :> "UniformBufferArrayDynamicIndexing" @@ "SampledImageArrayDynamicIndexing" :> "SampledImageArrayDynamicIndexing" @@ "StorageBufferArrayDynamicIndexing" :> "StorageBufferArrayDynamicIndexing" @@ "StorageImageArrayDynamicIndexing" :> "StorageImageArrayDynamicIndexing" @@ "ClipDistance" :> "ClipDistance" @@ "CullDistance" :> "CullDistance" @@ "ImageCubeArray" :> "ImageCubeArray" @@ "SampleRateShading" :> "SampleRateShading" @@ "ImageRect" :> "ImageRect" @@ "SampledRect" :> "SampledRect" @@ "GenericPointer" :> "GenericPointer" @@ "Int8" :> "Int8" @@ "InputAttachment" :> "InputAttachment" @@ "SparseResidency" :> "SparseResidency" @@ "MinLod" :> "MinLod" @@ "Sampled1D" :> "Sampled1D" @@ "Image1D" :> "Image1D" @@ "SampledCubeArray" :> "SampledCubeArray" @@ "SampledBuffer" :> "SampledBuffer" @@ "ImageBuffer" :> "ImageBuffer" @@ "ImageMSArray" :> "ImageMSArray" @@ "StorageImageExtendedFormats" :> "StorageImageExtendedFormats" @@ "ImageQuery" :> "ImageQuery" @@ "DerivativeControl" :> "DerivativeControl" @@ "InterpolationFunction" :> "InterpolationFunction" @@ "TransformFeedback" :> "TransformFeedback" @@ "GeometryStreams" :> "GeometryStreams" @@ "StorageImageReadWithoutFormat" :> "StorageImageReadWithoutFormat" @@ "StorageImageWriteWithoutFormat" :> "StorageImageWriteWithoutFormat" @@ "MultiViewport" :> "MultiViewport"),
  Signedness |-> ("UnsignedOrNone" :> "0" @@ "Signed" :> "1"),
  Dim |-> ("Tex1D" :> "1D" @@ "Tex2D" :> "2D" @@ "Tex3D" :> "3D" @@ "Cube" :> "Cube" @@ "Rect" :> "Rect" @@ "Buffer" :> "Buffer" @@ "SubpassData" :> "SubpassData"),
  DepthStatus |-> ("NotDepth" :> "0" @@ "Depth" :> "1" @@ "NoIndication" :> "2"),
  Arrayed |-> ("False" :> "0" @@ "True" :> "1"),
  MS |-> ("Single" :> "0" @@ "Multi" :> "1"),
  SampledStatus |-> ("RuntimeChoice" :> "0" @@ "WithSampler" :> "1" @@ "WithoutSampler" :> "2"),
  ImageFormat |-> ("Unknown" :> "Unknown" @@ "Rgba32f" :> "Rgba32f" @@ "Rgba16f" :> "Rgba16f" @@ "R32f" :> "R32f" @@ "Rgba8" :> "Rgba8" @@ "Rgba8Snorm" :> "Rgba8Snorm" @@ "Rg32f" :> "Rg32f" @@ "Rg16f" :> "Rg16f" @@ "R11fG11fB10f" :> "R11fG11fB10f" @@ "R16f" :> "R16f" @@ "Rgba16" :> "Rgba16" @@ "Rgb10A2" :> "Rgb10A2" @@ "Rg16" :> "Rg16" @@ "Rg8" :> "Rg8" @@ "R16" :> "R16" @@ "R8" :> "R8" @@ "Rgba16Snorm" :> "Rgba16Snorm" @@ "Rg16Snorm" :> "Rg16Snorm" @@ "Rg8Snorm" :> "Rg8Snorm" @@ "R16Snorm" :> "R16Snorm" @@ "R8Snorm" :> "R8Snorm" @@ "Rgba32i" :> "Rgba32i" @@ "Rgba16i" :> "Rgba16i" @@ "Rgba8i" :> "Rgba8i" @@ "R32i" :> "R32i" @@ "Rg32i" :> "Rg32i" @@ "Rg16i" :> "Rg16i" @@ "Rg8i" :> "Rg8i" @@ "R16i" :> "R16i" @@ "R8i" :> "R8i" @@ "Rgba32ui" :> "Rgba32ui" @@ "Rgba16ui" :> "Rgba16ui" @@ "Rgba8ui" :> "Rgba8ui" @@ "R32ui" :> "R32ui" @@ "Rgb10a2ui" :> "Rgb10a2ui" @@ "Rg32ui" :> "Rg32ui" @@ "Rg16ui" :> "Rg16ui" @@ "Rg8ui" :> "Rg8ui" @@ "R16ui" :> "R16ui" @@ "R8ui" :> "R8ui"),
  AccessQualifier |-> ("ReadOnly" :> "ReadOnly" @@ "WriteOnly" :> "WriteOnly" @@ "ReadWrite" :> "ReadWrite"),
  StorageClass |-> ("UniformConstant" :> "UniformConstant" @@ "Input" :> "Input" @@ "Uniform" :> "Uniform" @@ "Output" :> "Output" @@ "Workgroup" :> "Workgroup" @@ "CrossWorkgroup" :> "CrossWorkgroup" @@ "Private" :> "Private" @@ "Function" :> "Function" @@ "Generic" :> "Generic" @@ "PushConstant" :> "PushConstant" @@ "AtomicCounter" :> "AtomicCounter" @@ "Image" :> "Image"),
  BuiltIn |-> ("Position" :> "Position" @@ "PointSize" :> "PointSize" @@ "ClipDistance" :> "ClipDistance" @@ "CullDistance" :> "CullDistance" @@ "VertexId" :> "VertexId" @@ "InstanceId" :> "InstanceId" @@ "PrimitiveId" :> "PrimitiveId" @@ "InvocationId" :> "InvocationId" @@ "Layer" :> "Layer" @@ "ViewportIndex" :> "ViewportIndex" @@ "TessLevelOuter" :> "TessLevelOuter" @@ "TessLevelInner" :> "TessLevelInner" @@ "TessCoord" :> "TessCoord" @@ "PatchVerticies" :> "PatchVerticies" @@ "FragCoord" :> "FragCoord" @@ "PointCoord" :> "PointCoord" @@ "FrontFacing" :> "FrontFacing" @@ "SampleId" :> "SampleId" @@ "SamplePosition" :> "SamplePosition" @@ "SampleMask" :> "SampleMask" @@ "FragDepth" :> "FragDepth" @@ "HelperInvocation" :> "HelperInvocation" @@ "NumWorkgroups" :> "NumWorkgroups" @@ "WorkgroupSize" :> "WorkgroupSize" @@ "WorkgroupId" :> "WorkgroupId" @@ "LocalInvocationId" :> "LocalInvocationId" @@ "GlobalInvocationId" :> "GlobalInvocationId" @@ "LocalInvocationIndex" :> "LocalInvocationIndex" @@ "WorkDim" :> "WorkDim" @@ "GlobalSize" :> "GlobalSize" @@ "EnqueuedWorkgroupSize" :> "EnqueuedWorkgroupSize" @@ "GlobalOffset" :> "GlobalOffset" @@ "GlobalLinearId" :> "GlobalLinearId" @@ "SubgroupSize" :> "SubgroupSize" @@ "SubgroupMaxSize" :> "SubgroupMaxSize" @@ "NumSubgroups" :> "NumSubgroups" @@ "NumEnqueuedSubgroups" :> "NumEnqueuedSubgroups" @@ "SubgroupId" :> "SubgroupId" @@ "SubgroupLocalInvocationId" :> "SubgroupLocalInvocationId" @@ "VertexIndex" :> "VertexIndex" @@ "InstanceIndex" :> "InstanceIndex"),
  FunctionParameterAttribute |-> ("Zext" :> "Zext" @@ "Sext" :> "Sext" @@ "ByVal" :> "ByVal" @@ "Sret" :> "Sret" @@ "NoAlias" :> "NoAlias" @@ "NoCapture" :> "NoCapture" @@ "NoWrite" :> "NoWrite" @@ "NoReadWrite" :> "NoReadWrite"),
  FpRoundingMode |-> ("Rte" :> "RTE" @@ "Rtz" :> "RTZ" @@ "Rtp" :> "RTP" @@ "Rtn" :> "RTN"),
  LinkageType |-> ("Export" :> "Export" @@ "Import" :> "Import"),
  ExecutionMode |-> ("Invocations" :> "Invocations" @@ "SpacingEqual" :> "SpacingEqual" @@ "SpacingFractionalEven" :> "SpacingFractionalEven" @@ "SpacingFractionalOdd" :> "SpacingFractionalOdd" @@ "VertexOrderCw" :> "VertexOrderCw" @@ "VertexOrderCcw" :> "VertexOrderCcw" @@ "PixelCenterInteger" :> "PixelCenterInteger" @@ "OriginUpperLeft" :> "OriginUpperLeft" @@ "OriginLowerLeft" :> "OriginLowerLeft" @@ "EarlyFragmentTests" :> "EarlyFragmentTests" @@ "PointMode" :> "PointMode" @@ "Xfb" :> "Xfb" @@ "DepthReplacing" :> "DepthReplacing" @@ "DepthGreater" :> "DepthGreater" @@ "DepthLess" :> "DepthLess" @@ "DepthUnchanged" :> "DepthUnchanged" @@ "LocalSize" :> "LocalSize" @@ "LocalSizeHint" :> "LocalSizeHint" @@ "InputPoints" :> "InputPoints" @@ "InputLines" :> "InputLines" @@ "InputLinesAdjacency" :> "InputLinesAdjacency" @@ "Triangles" :> "Triangles" @@ "InputTrianglesAdjacency" :> "InputTrianglesAdjacency" @@ "Quads" :> "Quads" @@ "Isolines" :> "Isolines" @@ "OutputVerticies" :> "OutputVerticies" @@ "OutputPoints" :> "OutputPoints" @@ "OutputLineStrip" :> "OutputLineStrip" @@ "OutputTriangleStrip" :> "OutputTriangleStrip" @@ "VecTypeHint" :> "VecTypeHint" @@ "ContractionOff" :> "ContractionOff"),
  Decoration |-> ("RelaxedPrecision" :> "RelaxedPrecision" @@ "SpecId" :> "SpecId" @@ "Block" :> "Block" @@ "BufferBlock" :> "BufferBlock" @@ "RowMajor" :> "RowMajor" @@ "ColMajor" :> "ColMajor" @@ "ArrayStride" :> "ArrayStride" @@ "MatrixStride" :> "MatrixStride" @@ "GlslShared" :> "GLSLShared" @@ "GlslPacked" :> "GLSLPacked" @@ "CPacked" :> "CPacked" @@ "BuiltIn" :> "BuiltIn" @@ "NoPerspective" :> "NoPerspective" @@ "Flat" :> "Flat" @@ "Patch" :> "Patch" @@ "Centroid" :> "Centroid" @@ "Sample" :> "Sample" @@ "Invariant" :> "Invariant" @@ "Restrict" :> "Restrict" @@ "Aliased" :> "Aliased" @@ "Volatile" :> "Volatile" @@ "Constant" :> "Constant" @@ "Coherent" :> "Coherent" @@ "NonWritable" :> "NonWritable" @@ "NonReadable" :> "NonReadable" @@ "Uniform" :> "Uniform" @@ "SaturatedConversion" :> "SaturatedConversion" @@ "Stream" :> "Stream" @@ "Location" :> "Location" @@ "Component" :> "Component" @@ "Index" :> "Index" @@ "Binding" :> "Binding" @@ "DescriptorSet" :> "DescriptorSet" @@ "Offset" :> "Offset" @@ "XfbBuffer" :> "XfbBuffer" @@ "XfbStride" :> "XfbStride" @@ "FuncParamAttr" :> "FuncParamAttr" @@ "FpRoundingMode" :> "FpRoundingMode" @@ "FpFastMathMode" :> "FpFastMathMode" @@ "LinkageAttributes" :> "LinkageAttributes" @@ "NoContraction" :> "NoContraction" @@ "InputAttachmentIndex" :> "InputAttachmentIndex" @@ "Alignment" :> "Alignment")]

(* Operands of an enumerant (only those that have some). *)
EnumArgs == [ExecutionMode |-> ("Invocations" :> <<<<"u32", "">>>> @@ "LocalSize" :> <<<<"u32", "">>, <<"u32", "">>, <<"u32", "">>>> @@ "LocalSizeHint" :> <<<<"u32", "">>, <<"u32", "">>, <<"u32", "">>>> @@ "OutputVerticies" :> <<<<"u32", "">>>> @@ "VecTypeHint" :> <<<<"id", "">>>>),
  Decoration |-> ("SpecId" :> <<<<"u32", "">>>> @@ "ArrayStride" :> <<<<"u32", "">>>> @@ "MatrixStride" :> <<<<"u32", "">>>> @@ "BuiltIn" :> <<<<"enum", "BuiltIn">>>> @@ "Stream" :> <<<<"u32", "">>>> @@ "Location" :> <<<<"u32", "">>>> @@ "Component" :> <<<<"u32", "">>>> @@ "Index" :> <<<<"u32", "">>>> @@ "Binding" :> <<<<"u32", "">>>> @@ "DescriptorSet" :> <<<<"u32", "">>>> @@ "Offset" :> <<<<"u32", "">>>> @@ "XfbBuffer" :> <<<<"u32", "">>>> @@ "XfbStride" :> <<<<"u32", "">>>> @@ "FuncParamAttr" :> <<<<"enum", "FunctionParameterAttribute">>>> @@ "FpRoundingMode" :> <<<<"enum", "FpRoundingMode">>>> @@ "FpFastMathMode" :> <<<<"mask", "FpFastMathMode">>>> @@ "LinkageAttributes" :> <<<<"str", "">>, <<"enum", "LinkageType">>>> @@ "InputAttachmentIndex" :> <<<<"u32", "">>>> @@ "Alignment" :> <<<<"u32", "">>>>)]

(* Flags of a mask, lowest bit first. *)
MaskBits == [FunctionControl |-> <<"Inline", "DontInline", "Pure", "Const">>,
  MemoryAccess |-> <<"Volatile", "Aligned", "Nontemporal">>,
  LoopControl |-> <<"Unroll", "DontUnroll", "DependencyInfinite", "DependencyLength">>,
  SelectionControl |-> <<"Flatten", "DontFlatten">>,
  FpFastMathMode |-> <<"NotNaN", "NotInf", "NSZ", "AllowRecip", "Fast">>]

SourceLanguages == 0 :> "Unknown" @@ 1 :> "Essl" @@ 2 :> "Glsl" @@ 3 :> "OpenCL_C" @@ 4 :> "OpenCL_Cpp"
SourceText == "Unknown" :> "Unknown" @@ "Essl" :> "ESSL" @@ "Glsl" :> "GLSL" @@ "OpenCL_C" :> "OpenCL_C" @@ "OpenCL_Cpp" :> "OpenCL_CPP"
Tools == 0 :> "KhronosReserved" @@ 1 :> "LunarG" @@ 2 :> "Valve" @@ 3 :> "Codeplay" @@ 4 :> "Nvidia" @@ 5 :> "Arm" @@ 6 :> "KhronosLLvmTranslator" @@ 7 :> "KhronosAssembler" @@ 8 :> "KhronosGlslang" @@ 9 :> "Qualcomm" @@ 10 :> "Amd" @@ 11 :> "Intel"
ToolText == "KhronosReserved" :> "Khronos" @@ "LunarG" :> "LunarG" @@ "Valve" :> "Valve" @@ "Codeplay" :> "Codeplay" @@ "Nvidia" :> "NVIDIA" @@ "Arm" :> "ARM" @@ "KhronosLLvmTranslator" :> "Khronos LLVM/SPIR-V Translator" @@ "KhronosAssembler" :> "Khronos SPIR-V Tools Assembler" @@ "KhronosGlslang" :> "Khronos Glslang Reference Front End" @@ "Qualcomm" :> "Qualcomm" @@ "Amd" :> "AMD" @@ "Intel" :> "Intel"

(* What an error of the reader says. *)
ErrorText == [UnexpectedEndOfStream |-> "unexpected end of stream",
  UnexpectedStreamAlignment |-> "stream is not word aligned",
  BadMagic |-> "invalid magic number",
  UnknownVersionBytes |-> "unknown version bytes",
  UnknownVersion |-> "unknown version",
  UnknownReservedSchema |-> "unknown reserved schema field",
  UnknownOp |-> "unknown op",
  UnimplementedOp |-> "unimplemented op",
  WrongWordCountForOp |-> "op has invalid word count",
  InvalidString |-> "invalid string literal",
  UnexpectedEndOfInstruction |-> "instruction didn't have enough data",
  InstructionHadExcessData |-> "instruction didn't require all data",
  UnknownInstSet |-> "unknown instruction set",
  UnknownInstSetId |-> "extended instruction referenced unknown instruction set",
  UnknownExtInstOp |-> "unknown op in extended instruction set",
  DuplicateResultId |-> "duplicate result id",
  UnknownAddressingModel |-> "unknown addressing model",
  UnknownMemoryModel |-> "unknown memory model",
  UnknownExecutionModel |-> "unknown execution model",
  UnknownExecutionMode |-> "unknown execution mode",
  UnknownCapability |-> "unknown capability",
  UnknownDecoration |-> "unknown decoration",
  UnknownBuiltIn |-> "unknown built in",
  UnknownFpRoundingMode |-> "unknown fp rounding mode",
  UnknownFpFastMathMode |-> "unknown fp fast math mode",
  UnknownLinkageType |-> "unknown linkage type",
  UnknownSignedness |-> "unknown signedness",
  UnknownStorageClass |-> "unknown storage class",
  UnknownFunctionParameterAttribute |-> "unknown function parameter attribute",
  UnknownFunctionControl |-> "unknown function control",
  UnknownMemoryAccess |-> "unknown memory access",
  UnknownDim |-> "unknown image dimension",
  UnknownDepthStatus |-> "unknown image depth hint",
  UnknownArrayed |-> "unknown image arrayed status",
  UnknownMS |-> "unknown multisampled status",
  UnknownSampledStatus |-> "unknown sampled hint",
  UnknownImageFormat |-> "unknown image format",
  UnknownAccessQualifier |-> "unknown access qualifier",
  UnknownLoopControl |-> "unknown loop control",
  UnknownSelectionControl |-> "unknown selection control"]

(* Section of the module an instruction belongs to ("var": by storage class). *)
SectionOf == [OpNop |-> "code",
  OpUndef |-> "code",
  OpSourceContinued |-> "debug",
  OpSource |-> "debug",
  OpSourceExtension |-> "debug",
  OpName |-> "debug",
  OpMemberName |-> "debug",
  OpString |-> "debug",
  OpExtension |-> "ext",
  OpExtInstImport |-> "imp",
  OpExtInst |-> "code",
  OpMemoryModel |-> "mem",
  OpEntryPoint |-> "entry",
  OpExecutionMode |-> "mode",
  OpCapability |-> "cap",
  OpTypeVoid |-> "global",
  OpTypeBool |-> "global",
  OpTypeInt |-> "global",
  OpTypeFloat |-> "global",
  OpTypeVector |-> "global",
  OpTypeMatrix |-> "global",
  OpTypeImage |-> "global",
  OpTypeSampler |-> "global",
  OpTypeSampledImage |-> "global",
  OpTypeArray |-> "global",
  OpTypeRuntimeArray |-> "global",
  OpTypeStruct |-> "global",
  OpTypeOpaque |-> "global",
  OpTypePointer |-> "global",
  OpTypeFunction |-> "global",
  OpTypeEvent |-> "global",
  OpTypeDeviceEvent |-> "global",
  OpTypeQueue |-> "global",
  OpTypePipe |-> "global",
  OpTypeForwardPointer |-> "global",
  OpConstant |-> "global",
  OpConstantComposite |-> "global",
  OpFunction |-> "func",
  OpFunctionParameter |-> "param",
  OpFunctionEnd |-> "end",
  OpVariable |-> "var",
  OpLoad |-> "code",
  OpStore |-> "code",
  OpAccessChain |-> "code",
  OpDecorate |-> "annot",
  OpMemberDecorate |-> "annot",
  OpConvertUToF |-> "code",
  OpBitcast |-> "code",
  OpIAdd |-> "code",
  OpFAdd |-> "code",
  OpISub |-> "code",
  OpFSub |-> "code",
  OpIMul |-> "code",
  OpFMul |-> "code",
  OpUDiv |-> "code",
  OpSDiv |-> "code",
  OpFDiv |-> "code",
  OpUMod |-> "code",
  OpSRem |-> "code",
  OpSMod |-> "code",
  OpFRem |-> "code",
  OpFMod |-> "code",
  OpIAddCarry |-> "code",
  OpISubBorrow |-> "code",
  OpUMulExtended |-> "code",
  OpSMulExtended |-> "code",
  OpBitwiseOr |-> "code",
  OpBitwiseXor |-> "code",
  OpBitwiseAnd |-> "code",
  OpIEqual |-> "code",
  OpINotEqual |-> "code",
  OpUGreaterThan |-> "code",
  OpSGreaterThan |-> "code",
  OpUGreaterThanEqual |-> "code",
  OpSGreaterThanEqual |-> "code",
  OpULessThan |-> "code",
  OpSLessThan |-> "code",
  OpULessThanEqual |-> "code",
  OpSLessThanEqual |-> "code",
  OpFOrdEqual |-> "code",
  OpFUnordEqual |-> "code",
  OpFOrdNotEqual |-> "code",
  OpFUnordNotEqual |-> "code",
  OpFOrdLessThan |-> "code",
  OpFUnordLessThan |-> "code",
  OpFOrdGreaterThan |-> "code",
  OpFUnordGreaterThan |-> "code",
  OpFOrdLessThanEqual |-> "code",
  OpFUnordLessThanEqual |-> "code",
  OpFOrdGreaterThanEqual |-> "code",
  OpFUnordGreaterThanEqual |-> "code",
  OpPhi |-> "code",
  OpLoopMerge |-> "merge",
  OpSelectionMerge |-> "merge",
  OpLabel |-> "label",
  OpBranch |-> "branch",
  OpBranchConditional |-> "branch",
  OpReturn |-> "branch"]

(* Extended instruction sets a caller may supply: key -> name (as bytes) and name as text. *)
SetName == [G |-> <<"47", "4c", "53", "4c", "2e", "73", "74", "64", "2e", "34", "35", "30">>, A |-> <<"54", "2e", "61">>, A2 |-> <<"54", "2e", "61">>, B |-> <<"54", "2e", "62">>, P |-> <<"47", "4c", "53", "4c", "2e", "73", "74", "64", "2e", "34", "35">>, Q |-> <<"47", "4c", "53", "4c", "2e", "73", "74", "64", "2e", "34", "35", "30", "30">>, E |-> <<>>, L |-> <<"67", "6c", "73", "6c", "2e", "53", "54", "44", "2e", "34", "35", "30">>, U |-> <<"63", "61", "66", "c3", "a9">>]
SetText == [G |-> "GLSL.std.450", A |-> "T.a", A2 |-> "T.a", B |-> "T.b", P |-> "GLSL.std.45", Q |-> "GLSL.std.4500", E |-> "", L |-> "glsl.STD.450", U |-> "caf\\c3\\a9"]
GlslOps == 13 :> "Sin" @@ 14 :> "Cos"

(* Bytes as two hexadecimal digits, and as they appear in recorded text. *)
HexTable == <<"00", "01", "02", "03", "04", "05", "06", "07", "08", "09", "0a", "0b", "0c", "0d", "0e", "0f", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "1a", "1b", "1c", "1d", "1e", "1f", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "2a", "2b", "2c", "2d", "2e", "2f", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39", "3a", "3b", "3c", "3d", "3e", "3f", "40", "41", "42", "43", "44", "45", "46", "47", "48", "49", "4a", "4b", "4c", "4d", "4e", "4f", "50", "51", "52", "53", "54", "55", "56", "57", "58", "59", "5a", "5b", "5c", "5d", "5e", "5f", "60", "61", "62", "63", "64", "65", "66", "67", "68", "69", "6a", "6b", "6c", "6d", "6e", "6f", "70", "71", "72", "73", "74", "75", "76", "77", "78", "79", "7a", "7b", "7c", "7d", "7e", "7f", "80", "81", "82", "83", "84", "85", "86", "87", "88", "89", "8a", "8b", "8c", "8d", "8e", "8f", "90", "91", "92", "93", "94", "95", "96", "97", "98", "99", "9a", "9b", "9c", "9d", "9e", "9f", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "aa", "ab", "ac", "ad", "ae", "af", "b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "ba", "bb", "bc", "bd", "be", "bf", "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "ca", "cb", "cc", "cd", "ce", "cf", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "da", "db", "dc", "dd", "de", "df", "e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "ea", "eb", "ec", "ed", "ee", "ef", "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "fa", "fb", "fc", "fd", "fe", "ff">>
Hex(b) == HexTable[b + 1]
ByteOf == "00" :> 0 @@ "01" :> 1 @@ "02" :> 2 @@ "03" :> 3 @@ "04" :> 4 @@ "05" :> 5 @@ "06" :> 6 @@ "07" :> 7 @@ "08" :> 8 @@ "09" :> 9 @@ "0a" :> 10 @@ "0b" :> 11 @@ "0c" :> 12 @@ "0d" :> 13 @@ "0e" :> 14 @@ "0f" :> 15 @@ "10" :> 16 @@ "11" :> 17 @@ "12" :> 18 @@ "13" :> 19 @@ "14" :> 20 @@ "15" :> 21 @@ "16" :> 22 @@ "17" :> 23 @@ "18" :> 24 @@ "19" :> 25 @@ "1a" :> 26 @@ "1b" :> 27 @@ "1c" :> 28 @@ "1d" :> 29 @@ "1e" :> 30 @@ "1f" :> 31 @@ "20" :> 32 @@ "21" :> 33 @@ "22" :> 34 @@ "23" :> 35 @@ "24" :> 36 @@ "25" :> 37 @@ "26" :> 38 @@ "27" :> 39 @@ "28" :> 40 @@ "29" :> 41 @@ "2a" :> 42 @@ "2b" :> 43 @@ "2c" :> 44 @@ "2d" :> 45 @@ "2e" :> 46 @@ "2f" :> 47 @@ "30" :> 48 @@ "31" :> 49 @@ "32" :> 50 @@ "33" :> 51 @@ "34" :> 52 @@ "35" :> 53 @@ "36" :> 54 @@ "37" :> 55 @@ "38" :> 56 @@ "39" :> 57 @@ "3a" :> 58 @@ "3b" :> 59 @@ "3c" :> 60 @@ "3d" :> 61 @@ "3e" :> 62 @@ "3f" :> 63 @@ "40" :> 64 @@ "41" :> 65 @@ "42" :> 66 @@ "43" :> 67 @@ "44" :> 68 @@ "45" :> 69 @@ "46" :> 70 @@ "47" :> 71 @@ "48" :> 72 @@ "49" :> 73 @@ "4a" :> 74 @@ "4b" :> 75 @@ "4c" :> 76 @@ "4d" :> 77 @@ "4e" :> 78 @@ "4f" :> 79 @@ "50" :> 80 @@ "51" :> 81 @@ "52" :> 82 @@ "53" :> 83 @@ "54" :> 84 @@ "55" :> 85 @@ "56" :> 86 @@ "57" :> 87 @@ "58" :> 88 @@ "59" :> 89 @@ "5a" :> 90 @@ "5b" :> 91 @@ "5c" :> 92 @@ "5d" :> 93 @@ "5e" :> 94 @@ "5f" :> 95 @@ "60" :> 96 @@ "61" :> 97 @@ "62" :> 98 @@ "63" :> 99 @@ "64" :> 100 @@ "65" :> 101 @@ "66" :> 102 @@ "67" :> 103 @@ "68" :> 104 @@ "69" :> 105 @@ "6a" :> 106 @@ "6b" :> 107 @@ "6c" :> 108 @@ "6d" :> 109 @@ "6e" :> 110 @@ "6f" :> 111 @@ "70" :> 112 @@ "71" :> 113 @@ "72" :> 114 @@ "73" :> 115 @@ "74" :> 116 @@ "75" :> 117 @@ "76" :> 118 @@ "77" :> 119 @@ "78" :> 120 @@ "79" :> 121 @@ "7a" :> 122 @@ "7b" :> 123 @@ "7c" :> 124 @@ "7d" :> 125 @@ "7e" :> 126 @@ "7f" :> 127 @@ "80" :> 128 @@ "81" :> 129 @@ "82" :> 130 @@ "83" :> 131 @@ "84" :> 132 @@ "85" :> 133 @@ "86" :> 134 @@ "87" :> 135 @@ "88" :> 136 @@ "89" :> 137 @@ "8a" :> 138 @@ "8b" :> 139 @@ "8c" :> 140 @@ "8d" :> 141 @@ "8e" :> 142 @@ "8f" :> 143 @@ "90" :> 144 @@ "91" :> 145 @@ "92" :> 146 @@ "93" :> 147 @@ "94" :> 148 @@ "95" :> 149 @@ "96" :> 150 @@ "97" :> 151 @@ "98" :> 152 @@ "99" :> 153 @@ "9a" :> 154 @@ "9b" :> 155 @@ "9c" :> 156 @@ "9d" :> 157 @@ "9e" :> 158 @@ "9f" :> 159 @@ "a0" :> 160 @@ "a1" :> 161 @@ "a2" :> 162 @@ "a3" :> 163 @@ "a4" :> 164 @@ "a5" :> 165 @@ "a6" :> 166 @@ "a7" :> 167 @@ "a8" :> 168 @@ "a9" :> 169 @@ "aa" :> 170 @@ "ab" :> 171 @@ "ac" :> 172 @@ "ad" :> 173 @@ "ae" :> 174 @@ "af" :> 175 @@ "b0" :> 176 @@ "b1" :> 177 @@ "b2" :> 178 @@ "b3" :> 179 @@ "b4" :> 180 @@ "b5" :> 181 @@ "b6" :> 182 @@ "b7" :> 183 @@ "b8" :> 184 @@ "b9" :> 185 @@ "ba" :> 186 @@ "bb" :> 187 @@ "bc" :> 188 @@ "bd" :> 189 @@ "be" :> 190 @@ "bf" :> 191 @@ "c0" :> 192 @@ "c1" :> 193 @@ "c2" :> 194 @@ "c3" :> 195 @@ "c4" :> 196 @@ "c5" :> 197 @@ "c6" :> 198 @@ "c7" :> 199 @@ "c8" :> 200 @@ "c9" :> 201 @@ "ca" :> 202 @@ "cb" :> 203 @@ "cc" :> 204 @@ "cd" :> 205 @@ "ce" :> 206 @@ "cf" :> 207 @@ "d0" :> 208 @@ "d1" :> 209 @@ "d2" :> 210 @@ "d3" :> 211 @@ "d4" :> 212 @@ "d5" :> 213 @@ "d6" :> 214 @@ "d7" :> 215 @@ "d8" :> 216 @@ "d9" :> 217 @@ "da" :> 218 @@ "db" :> 219 @@ "dc" :> 220 @@ "dd" :> 221 @@ "de" :> 222 @@ "df" :> 223 @@ "e0" :> 224 @@ "e1" :> 225 @@ "e2" :> 226 @@ "e3" :> 227 @@ "e4" :> 228 @@ "e5" :> 229 @@ "e6" :> 230 @@ "e7" :> 231 @@ "e8" :> 232 @@ "e9" :> 233 @@ "ea" :> 234 @@ "eb" :> 235 @@ "ec" :> 236 @@ "ed" :> 237 @@ "ee" :> 238 @@ "ef" :> 239 @@ "f0" :> 240 @@ "f1" :> 241 @@ "f2" :> 242 @@ "f3" :> 243 @@ "f4" :> 244 @@ "f5" :> 245 @@ "f6" :> 246 @@ "f7" :> 247 @@ "f8" :> 248 @@ "f9" :> 249 @@ "fa" :> 250 @@ "fb" :> 251 @@ "fc" :> 252 @@ "fd" :> 253 @@ "fe" :> 254 @@ "ff" :> 255
Chr == "00" :> "\\00" @@ "01" :> "\\01" @@ "02" :> "\\02" @@ "03" :> "\\03" @@ "04" :> "\\04" @@ "05" :> "\\05" @@ "06" :> "\\06" @@ "07" :> "\\07" @@ "08" :> "\\08" @@ "09" :> "\\09" @@ "0a" :> "\\0a" @@ "0b" :> "\\0b" @@ "0c" :> "\\0c" @@ "0d" :> "\\0d" @@ "0e" :> "\\0e" @@ "0f" :> "\\0f" @@ "10" :> "\\10" @@ "11" :> "\\11" @@ "12" :> "\\12" @@ "13" :> "\\13" @@ "14" :> "\\14" @@ "15" :> "\\15" @@ "16" :> "\\16" @@ "17" :> "\\17" @@ "18" :> "\\18" @@ "19" :> "\\19" @@ "1a" :> "\\1a" @@ "1b" :> "\\1b" @@ "1c" :> "\\1c" @@ "1d" :> "\\1d" @@ "1e" :> "\\1e" @@ "1f" :> "\\1f" @@ "20" :> " " @@ "21" :> "!" @@ "22" :> "\"" @@ "23" :> "#" @@ "24" :> "$" @@ "25" :> "%" @@ "26" :> "&" @@ "27" :> "'" @@ "28" :> "(" @@ "29" :> ")" @@ "2a" :> "*" @@ "2b" :> "+" @@ "2c" :> "," @@ "2d" :> "-" @@ "2e" :> "." @@ "2f" :> "/" @@ "30" :> "0" @@ "31" :> "1" @@ "32" :> "2" @@ "33" :> "3" @@ "34" :> "4" @@ "35" :> "5" @@ "36" :> "6" @@ "37" :> "7" @@ "38" :> "8" @@ "39" :> "9" @@ "3a" :> ":" @@ "3b" :> ";" @@ "3c" :> "<" @@ "3d" :> "=" @@ "3e" :> ">" @@ "3f" :> "?" @@ "40" :> "@" @@ "41" :> "A" @@ "42" :> "B" @@ "43" :> "C" @@ "44" :> "D" @@ "45" :> "E" @@ "46" :> "F" @@ "47" :> "G" @@ "48" :> "H" @@ "49" :> "I" @@ "4a" :> "J" @@ "4b" :> "K" @@ "4c" :> "L" @@ "4d" :> "M" @@ "4e" :> "N" @@ "4f" :> "O" @@ "50" :> "P" @@ "51" :> "Q" @@ "52" :> "R" @@ "53" :> "S" @@ "54" :> "T" @@ "55" :> "U" @@ "56" :> "V" @@ "57" :> "W" @@ "58" :> "X" @@ "59" :> "Y" @@ "5a" :> "Z" @@ "5b" :> "[" @@ "5c" :> "\\5c" @@ "5d" :> "]" @@ "5e" :> "^" @@ "5f" :> "_" @@ "60" :> "`" @@ "61" :> "a" @@ "62" :> "b" @@ "63" :> "c" @@ "64" :> "d" @@ "65" :> "e" @@ "66" :> "f" @@ "67" :> "g" @@ "68" :> "h" @@ "69" :> "i" @@ "6a" :> "j" @@ "6b" :> "k" @@ "6c" :> "l" @@ "6d" :> "m" @@ "6e" :> "n" @@ "6f" :> "o" @@ "70" :> "p" @@ "71" :> "q" @@ "72" :> "r" @@ "73" :> "s" @@ "74" :> "t" @@ "75" :> "u" @@ "76" :> "v" @@ "77" :> "w" @@ "78" :> "x" @@ "79" :> "y" @@ "7a" :> "z" @@ "7b" :> "{" @@ "7c" :> "|" @@ "7d" :> "}" @@ "7e" :> "~" @@ "7f" :> "\\7f" @@ "80" :> "\\80" @@ "81" :> "\\81" @@ "82" :> "\\82" @@ "83" :> "\\83" @@ "84" :> "\\84" @@ "85" :> "\\85" @@ "86" :> "\\86" @@ "87" :> "\\87" @@ "88" :> "\\88" @@ "89" :> "\\89" @@ "8a" :> "\\8a" @@ "8b" :> "\\8b" @@ "8c" :> "\\8c" @@ "8d" :> "\\8d" @@ "8e" :> "\\8e" @@ "8f" :> "\\8f" @@ "90" :> "\\90" @@ "91" :> "\\91" @@ "92" :> "\\92" @@ "93" :> "\\93" @@ "94" :> "\\94" @@ "95" :> "\\95" @@ "96" :> "\\96" @@ "97" :> "\\97" @@ "98" :> "\\98" @@ "99" :> "\\99" @@ "9a" :> "\\9a" @@ "9b" :> "\\9b" @@ "9c" :> "\\9c" @@ "9d" :> "\\9d" @@ "9e" :> "\\9e" @@ "9f" :> "\\9f" @@ "a0" :> "\\a0" @@ "a1" :> "\\a1" @@ "a2" :> "\\a2" @@ "a3" :> "\\a3" @@ "a4" :> "\\a4" @@ "a5" :> "\\a5" @@ "a6" :> "\\a6" @@ "a7" :> "\\a7" @@ "a8" :> "\\a8" @@ "a9" :> "\\a9" @@ "aa" :> "\\aa" @@ "ab" :> "\\ab" @@ "ac" :> "\\ac" @@ "ad" :> "\\ad" @@ "ae" :> "\\ae" @@ "af" :> "\\af" @@ "b0" :> "\\b0" @@ "b1" :> "\\b1" @@ "b2" :> "\\b2" @@ "b3" :> "\\b3" @@ "b4" :> "\\b4" @@ "b5" :> "\\b5" @@ "b6" :> "\\b6" @@ "b7" :> "\\b7" @@ "b8" :> "\\b8" @@ "b9" :> "\\b9" @@ "ba" :> "\\ba" @@ "bb" :> "\\bb" @@ "bc" :> "\\bc" @@ "bd" :> "\\bd" @@ "be" :> "\\be" @@ "bf" :> "\\bf" @@ "c0" :> "\\c0" @@ "c1" :> "\\c1" @@ "c2" :> "\\c2" @@ "c3" :> "\\c3" @@ "c4" :> "\\c4" @@ "c5" :> "\\c5" @@ "c6" :> "\\c6" @@ "c7" :> "\\c7" @@ "c8" :> "\\c8" @@ "c9" :> "\\c9" @@ "ca" :> "\\ca" @@ "cb" :> "\\cb" @@ "cc" :> "\\cc" @@ "cd" :> "\\cd" @@ "ce" :> "\\ce" @@ "cf" :> "\\cf" @@ "d0" :> "\\d0" @@ "d1" :> "\\d1" @@ "d2" :> "\\d2" @@ "d3" :> "\\d3" @@ "d4" :> "\\d4" @@ "d5" :> "\\d5" @@ "d6" :> "\\d6" @@ "d7" :> "\\d7" @@ "d8" :> "\\d8" @@ "d9" :> "\\d9" @@ "da" :> "\\da" @@ "db" :> "\\db" @@ "dc" :> "\\dc" @@ "dd" :> "\\dd" @@ "de" :> "\\de" @@ "df" :> "\\df" @@ "e0" :> "\\e0" @@ "e1" :> "\\e1" @@ "e2" :> "\\e2" @@ "e3" :> "\\e3" @@ "e4" :> "\\e4" @@ "e5" :> "\\e5" @@ "e6" :> "\\e6" @@ "e7" :> "\\e7" @@ "e8" :> "\\e8" @@ "e9" :> "\\e9" @@ "ea" :> "\\ea" @@ "eb" :> "\\eb" @@ "ec" :> "\\ec" @@ "ed" :> "\\ed" @@ "ee" :> "\\ee" @@ "ef" :> "\\ef" @@ "f0" :> "\\f0" @@ "f1" :> "\\f1" @@ "f2" :> "\\f2" @@ "f3" :> "\\f3" @@ "f4" :> "\\f4" @@ "f5" :> "\\f5" @@ "f6" :> "\\f6" @@ "f7" :> "\\f7" @@ "f8" :> "\\f8" @@ "f9" :> "\\f9" @@ "fa" :> "\\fa" @@ "fb" :> "\\fb" @@ "fc" :> "\\fc" @@ "fd" :> "\\fd" @@ "fe" :> "\\fe" @@ "ff" :> "\\ff"
=============================================================================
