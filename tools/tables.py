"""The instruction and enumerant tables of the specification (SPIR-V 1.0 as magmaflow supports it).
Source of spec/Grammar.tla and harness/src/gen.rs (tools/gen.py); reviewed against the SPIR-V 1.0 standard."""
# name, opcode (None: value exists but cannot be read), fields in wire order: (field name, kind)
OPS = [
    ('OpNop', 0, []),
    ('OpUndef', 1, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpSourceContinued', 2, [('continued_source', 'str')]),
    ('OpSource', 3, [('language', 'srclang'), ('version', 'ver'), ('file', 'optid'), ('source', 'optstr')]),
    ('OpSourceExtension', 4, [('extension', 'str')]),
    ('OpName', 5, [('target', 'id'), ('name', 'str')]),
    ('OpMemberName', 6, [('struct_type', 'id'), ('member', 'member'), ('name', 'str')]),
    ('OpString', 7, [('result_id', 'res'), ('string', 'str')]),
    ('OpExtension', 10, [('name', 'str')]),
    ('OpExtInstImport', 11, [('result_id', 'res'), ('name', 'str')]),
    ('OpExtInst', 12, [('result_type', 'id'), ('result_id', 'res'), ('set', 'id'), ('instruction', 'ext')]),
    ('OpMemoryModel', 14, [('addressing_model', 'enum:AddressingModel'), ('memory_model', 'enum:MemoryModel')]),
    ('OpEntryPoint', 15, [('execution_model', 'enum:ExecutionModel'), ('entry_point', 'id'), ('name', 'str'), ('interface', 'vecid')]),
    ('OpExecutionMode', 16, [('entry_point', 'id'), ('mode', 'comp:ExecutionMode')]),
    ('OpCapability', 17, [('capability', 'enum:Capability')]),
    ('OpTypeVoid', 19, [('result_id', 'res')]),
    ('OpTypeBool', 20, [('result_id', 'res')]),
    ('OpTypeInt', 21, [('result_id', 'res'), ('width', 'u32'), ('signedness', 'enum:Signedness')]),
    ('OpTypeFloat', 22, [('result_id', 'res'), ('width', 'u32')]),
    ('OpTypeVector', 23, [('result_id', 'res'), ('component_type', 'id'), ('component_count', 'u32')]),
    ('OpTypeMatrix', 24, [('result_id', 'res'), ('column_type', 'id'), ('column_count', 'u32')]),
    ('OpTypeImage', 25, [('result_id', 'res'), ('sampled_type', 'id'), ('dim', 'enum:Dim'), ('depth', 'enum:DepthStatus'), ('arrayed', 'enum:Arrayed'), ('ms', 'enum:MS'), ('sampled', 'enum:SampledStatus'), ('format', 'enum:ImageFormat'), ('access_qualifier', 'optenum:AccessQualifier')]),
    ('OpTypeSampler', 26, [('result_id', 'res')]),
    ('OpTypeSampledImage', 27, [('result_id', 'res'), ('image_type', 'id')]),
    ('OpTypeArray', 28, [('result_id', 'res'), ('element_type', 'id'), ('length', 'id')]),
    ('OpTypeRuntimeArray', 29, [('result_id', 'res'), ('element_type', 'id')]),
    ('OpTypeStruct', 30, [('result_id', 'res'), ('member_types', 'vecid')]),
    ('OpTypeOpaque', 31, [('result_id', 'res'), ('name', 'str')]),
    ('OpTypePointer', 32, [('result_id', 'res'), ('storage_class', 'enum:StorageClass'), ('pointed_type', 'id')]),
    ('OpTypeFunction', 33, [('result_id', 'res'), ('return_type', 'id'), ('parameter_types', 'vecid')]),
    ('OpTypeEvent', None, [('result_id', 'res')]),
    ('OpTypeDeviceEvent', None, [('result_id', 'res')]),
    ('OpTypeQueue', None, [('result_id', 'res')]),
    ('OpTypePipe', None, [('result_id', 'res'), ('access_qualifier', 'enum:AccessQualifier')]),
    ('OpTypeForwardPointer', None, [('pointer_type', 'id'), ('storage_class', 'enum:StorageClass')]),
    ('OpConstant', 43, [('result_type', 'id'), ('result_id', 'res'), ('value', 'vecu32')]),
    ('OpConstantComposite', 44, [('result_type', 'id'), ('result_id', 'res'), ('constituents', 'vecid')]),
    ('OpFunction', 54, [('result_type', 'id'), ('result_id', 'res'), ('function_control', 'mask:FunctionControl'), ('function_type', 'id')]),
    ('OpFunctionParameter', 55, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpFunctionEnd', 56, []),
    ('OpVariable', 59, [('result_type', 'id'), ('result_id', 'res'), ('storage_class', 'enum:StorageClass'), ('initializer', 'optid')]),
    ('OpLoad', 61, [('result_type', 'id'), ('result_id', 'res'), ('pointer', 'id'), ('memory_access', 'optmask:MemoryAccess')]),
    ('OpStore', 62, [('pointer', 'id'), ('object', 'id'), ('memory_access', 'optmask:MemoryAccess')]),
    ('OpAccessChain', 65, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('indexes', 'vecid')]),
    ('OpDecorate', 71, [('target', 'id'), ('decoration', 'comp:Decoration')]),
    ('OpMemberDecorate', 72, [('structure_type', 'id'), ('member', 'member'), ('decoration', 'comp:Decoration')]),
    ('OpConvertUToF', 112, [('result_type', 'id'), ('result_id', 'res'), ('unsigned_value', 'id')]),
    ('OpBitcast', 124, [('result_type', 'id'), ('result_id', 'res'), ('operand', 'id')]),
    ('OpIAdd', 128, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFAdd', 129, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpISub', 130, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFSub', 131, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpIMul', 132, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFMul', 133, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpUDiv', 134, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSDiv', 135, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFDiv', 136, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpUMod', 137, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSRem', 138, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSMod', 139, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFRem', 140, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFMod', 141, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpIAddCarry', 149, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpISubBorrow', 150, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpUMulExtended', 151, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSMulExtended', 152, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpBitwiseOr', 197, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpBitwiseXor', 198, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpBitwiseAnd', 199, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpIEqual', 170, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpINotEqual', 171, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpUGreaterThan', 172, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSGreaterThan', 173, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpUGreaterThanEqual', 174, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSGreaterThanEqual', 175, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpULessThan', 176, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSLessThan', 177, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpULessThanEqual', 178, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpSLessThanEqual', 179, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFOrdEqual', 180, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFUnordEqual', 181, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFOrdNotEqual', 182, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFUnordNotEqual', 183, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFOrdLessThan', 184, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFUnordLessThan', 185, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFOrdGreaterThan', 186, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFUnordGreaterThan', 187, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFOrdLessThanEqual', 188, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFUnordLessThanEqual', 189, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFOrdGreaterThanEqual', 190, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpFUnordGreaterThanEqual', 191, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id')]),
    ('OpPhi', 245, [('result_type', 'id'), ('result_id', 'res'), ('variables', 'phi')]),
    ('OpLoopMerge', 246, [('merge_block', 'id'), ('continue_target', 'id'), ('loop_control', 'mask:LoopControl')]),
    ('OpSelectionMerge', 247, [('merge_block', 'id'), ('selection_control', 'mask:SelectionControl')]),
    ('OpLabel', 248, [('result_id', 'res')]),
    ('OpBranch', 249, [('target_label', 'id')]),
    ('OpBranchConditional', 250, [('condition', 'id'), ('true_label', 'id'), ('false_label', 'id'), ('weights', 'weights')]),
    ('OpReturn', 253, []),
]
# opcodes of the standard that are recognised but not supported
# instructions that can be built and shown but are not part of modules
LOOSE = [
    ('OpLine', None, [('file', 'id'), ('line', 'line'), ('column', 'column')]),
    ('OpNoLine', None, []),
    ('OpDecorationGroup', None, [('result_id', 'res')]),
    ('OpGroupDecorate', None, [('decoration_group', 'id'), ('targets', 'vecid')]),
    ('OpTypeReserveId', None, [('result_id', 'res')]),
    ('OpConstantTrue', None, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpConstantFalse', None, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpConstantSampler', None, [('result_type', 'id'), ('result_id', 'res'), ('addressing_mode', 'enum:SamplerAddressingMode'), ('param', 'enum:SamplerParam'), ('filter_mode', 'enum:SamplerFilterMode')]),
    ('OpConstantNull', None, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpSpecConstantTrue', None, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpSpecConstantFalse', None, [('result_type', 'id'), ('result_id', 'res')]),
    ('OpSpecConstant', None, [('result_type', 'id'), ('result_id', 'res'), ('value', 'vecu32')]),
    ('OpSpecConstantComposite', None, [('result_type', 'id'), ('result_id', 'res'), ('constituents', 'vecid')]),
    ('OpImageTexelPointer', None, [('result_type', 'id'), ('result_id', 'res'), ('image', 'id'), ('coordinate', 'id'), ('sample', 'id')]),
    ('OpCopyMemory', None, [('target', 'id'), ('source', 'id'), ('memory_access', 'optmask:MemoryAccess')]),
    ('OpCopyMemorySized', None, [('target', 'id'), ('source', 'id'), ('size', 'id'), ('memory_access', 'optmask:MemoryAccess')]),
    ('OpInBoundsAccessChain', None, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('indexes', 'vecid')]),
    ('OpPtrAccessChain', None, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('element', 'id'), ('indexes', 'vecid')]),
    ('OpArrayLength', None, [('result_type', 'id'), ('result_id', 'res'), ('structure', 'id'), ('array_member', 'member')]),
    ('OpGenericPtrMemSemantics', None, [('result_type', 'id'), ('result_id', 'res'), ('pointer', 'id')]),
    ('OpInBoundsPtrAccessChain', None, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('element', 'id'), ('indexes', 'vecid')]),
    ('OpFunctionCall', None, [('result_type', 'id'), ('result_id', 'res'), ('function', 'id'), ('arguments', 'vecid')]),
    ('OpSampledImage', None, [('result_type', 'id'), ('result_id', 'res'), ('image', 'id'), ('sampler', 'id')]),
    ('OpConvertFToU', None, [('result_type', 'id'), ('result_id', 'res'), ('float_value', 'id')]),
    ('OpConvertFToS', None, [('result_type', 'id'), ('result_id', 'res'), ('float_value', 'id')]),
    ('OpConvertSToF', None, [('result_type', 'id'), ('result_id', 'res'), ('signed_value', 'id')]),
    ('OpUConvert', None, [('result_type', 'id'), ('result_id', 'res'), ('unsigned_value', 'id')]),
    ('OpSConvert', None, [('result_type', 'id'), ('result_id', 'res'), ('signed_value', 'id')]),
    ('OpFConvert', None, [('result_type', 'id'), ('result_id', 'res'), ('float_value', 'id')]),
    ('OpQuantizeToF16', None, [('result_type', 'id'), ('result_id', 'res'), ('value', 'id')]),
    ('OpConvertPtrToU', None, [('result_type', 'id'), ('result_id', 'res'), ('pointer', 'id')]),
    ('OpSatConvertSToU', None, [('result_type', 'id'), ('result_id', 'res'), ('signed_value', 'id')]),
    ('OpSatConvertUToS', None, [('result_type', 'id'), ('result_id', 'res'), ('unsigned_value', 'id')]),
    ('OpConvertUToPtr', None, [('result_type', 'id'), ('result_id', 'res'), ('integer_value', 'id')]),
    ('OpPtrCastToGeneric', None, [('result_type', 'id'), ('result_id', 'res'), ('pointer', 'id')]),
    ('OpGenericCastToPtr', None, [('result_type', 'id'), ('result_id', 'res'), ('pointer', 'id')]),
    ('OpGenericCastToPtrExplicit', None, [('result_type', 'id'), ('result_id', 'res'), ('pointer', 'id'), ('storage_class', 'enum:StorageClass')]),
    ('OpVectorExtractDynamic', None, [('result_type', 'id'), ('result_id', 'res'), ('vector', 'id'), ('index', 'id')]),
    ('OpVectorInsertDynamic', None, [('result_type', 'id'), ('result_id', 'res'), ('vector', 'id'), ('component', 'id'), ('index', 'id')]),
    ('OpVectorShuffle', None, [('result_type', 'id'), ('result_id', 'res'), ('operand1', 'id'), ('operand2', 'id'), ('components', 'vecmember')]),
    ('OpCompositeConstruct', None, [('result_type', 'id'), ('result_id', 'res'), ('constituents', 'vecmember')]),
    ('OpCompositeExtract', None, [('result_type', 'id'), ('result_id', 'res'), ('composite', 'id'), ('indexes', 'vecmember')]),
    ('OpCompositeInsert', None, [('result_type', 'id'), ('result_id', 'res'), ('object', 'id'), ('composite', 'id'), ('indexes', 'vecmember')]),
    ('OpCopyObject', None, [('result_type', 'id'), ('result_id', 'res'), ('operand', 'id')]),
    ('OpTranspose', None, [('result_type', 'id'), ('result_id', 'res'), ('matrix', 'id')]),
    ('OpSNegate', None, [('result_type', 'id'), ('result_id', 'res'), ('operand', 'id')]),
    ('OpFNegate', None, [('result_type', 'id'), ('result_id', 'res'), ('operand', 'id')]),
    ('OpVectorTimesScalar', None, [('result_type', 'id'), ('result_id', 'res'), ('vector', 'id'), ('scalar', 'id')]),
    ('OpMatrixTimesScalar', None, [('result_type', 'id'), ('result_id', 'res'), ('matrix', 'id'), ('scalar', 'id')]),
    ('OpVectorTimesMatrix', None, [('result_type', 'id'), ('result_id', 'res'), ('vector', 'id'), ('matrix', 'id')]),
    ('OpMatrixTimesVector', None, [('result_type', 'id'), ('result_id', 'res'), ('matrix', 'id'), ('vector', 'id')]),
    ('OpMatrixTimesMatrix', None, [('result_type', 'id'), ('result_id', 'res'), ('left_matrix', 'id'), ('right_matrix', 'id')]),
    ('OpOuterProduct', None, [('result_type', 'id'), ('result_id', 'res'), ('vector1', 'id'), ('vector2', 'id')]),
    ('OpDot', None, [('result_type', 'id'), ('result_id', 'res'), ('vector1', 'id'), ('vector2', 'id')]),
    ('OpShiftRightLogical', None, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('shift', 'id')]),
    ('OpShiftRightArithmetic', None, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('shift', 'id')]),
    ('OpShiftLeftLogical', None, [('result_type', 'id'), ('result_id', 'res'), ('base', 'id'), ('shift', 'id')]),
    ('OpNot', None, [('result_type', 'id'), ('result_id', 'res'), ('operand', 'id')]),
]

UNIMPL = {
    8: 'OpLine',
    41: 'OpConstantTrue',
    42: 'OpConstantFalse',
    45: 'OpConstantSampler',
    46: 'OpConstantNull',
    48: 'OpSpecConstantTrue',
    49: 'OpSpecConstantFalse',
    50: 'OpSpecConstant',
    51: 'OpSpecConstantComposite',
    52: 'OpSpecConstantOp',
    57: 'OpFunctionCall',
    60: 'OpImageTexelPointer',
    63: 'OpCopyMemory',
    64: 'OpCopyMemorySized',
    66: 'OpInBoundsAccessChain',
    67: 'OpPtrAccessChain',
    68: 'OpArrayLength',
    69: 'OpGenericPtrMemSemantics',
    70: 'OpInBoundsPtrAccessChain',
    77: 'OpVectorExtractDynamic',
    78: 'OpVectorInsertDynamic',
    79: 'OpVectorShuffle',
    80: 'OpCompositeConstruct',
    81: 'OpCompositeExtract',
    82: 'OpCompositeInsert',
    83: 'OpCopyObject',
    84: 'OpTranspose',
    86: 'OpSampledImage',
    87: 'OpImageSampleImplicitLod',
    88: 'OpImageSampleExplicitLod',
    89: 'OpImageSampleDrefImplicitLod',
    90: 'OpImageSampleDrefExplicitLod',
    91: 'OpImageSampleProjImplicitLod',
    92: 'OpImageSampleProjExplicitLod',
    93: 'OpImageSampleProjDrefImplicitLod',
    94: 'OpImageSampleProjDrefExplicitLod',
    95: 'OpImageFetch',
    96: 'OpImageGather',
    97: 'OpImageDrefGather',
    98: 'OpImageRead',
    99: 'OpImageWrite',
    100: 'OpImage',
    101: 'OpImageQueryFormat',
    102: 'OpImageQueryOrder',
    103: 'OpImageQuerySizeLod',
    104: 'OpImageQuerySize',
    105: 'OpImageQueryLod',
    106: 'OpImageQueryLevels',
    107: 'OpImageQuerySamples',
    109: 'OpConvertFToU',
    110: 'OpConvertFToS',
    111: 'OpConvertSToF',
    113: 'OpUConvert',
    114: 'OpSConvert',
    115: 'OpFConvert',
    116: 'OpQuantizeToF16',
    117: 'OpConvertPtrToU',
    118: 'OpSatConvertSToU',
    119: 'OpSatConvertUToS',
    120: 'OpConvertUToPtr',
    121: 'OpPtrCastToGeneric',
    122: 'OpGenericCastToPtr',
    123: 'OpGenericCastToPtrExplicit',
    126: 'OpSNegate',
    127: 'OpFNegate',
    142: 'OpVectorTimesScalar',
    143: 'OpMatrixTimesScalar',
    144: 'OpVectorTimesMatrix',
    145: 'OpMatrixTimesVector',
    146: 'OpMatrixTimesMatrix',
    147: 'OpOuterProduct',
    148: 'OpDot',
    154: 'OpAny',
    155: 'OpAll',
    156: 'OpIsNan',
    157: 'OpIsInf',
    158: 'OpIsFinite',
    159: 'OpIsNormal',
    160: 'OpSignBitSet',
    161: 'OpLessOrGreater',
    162: 'OpOrdered',
    163: 'OpUnordered',
    164: 'OpLogicalEqual',
    165: 'OpLogicalNotEqual',
    166: 'OpLogicalOr',
    167: 'OpLogicalAnd',
    168: 'OpLogicalNot',
    169: 'OpSelect',
    194: 'OpShiftRightLogical',
    195: 'OpShiftRightArithmetic',
    196: 'OpShiftLeftLogical',
    200: 'OpNot',
    201: 'OpBitFieldInsert',
    202: 'OpBitFieldSExtract',
    203: 'OpBitFieldUExtract',
    204: 'OpBitReverse',
    205: 'OpBitCount',
    207: 'OpDPdx',
    208: 'OpDPdy',
    209: 'OpFwidth',
    210: 'OpDPdxFine',
    211: 'OpDPdyFine',
    212: 'OpFwidthFine',
    213: 'OpDPdxCoarse',
    214: 'OpDPdyCoarse',
    215: 'OpFwidthCoarse',
    218: 'OpEmitVertex',
    219: 'OpEndPrimitive',
    220: 'OpEmitStreamVertex',
    221: 'OpEndStreamPrimitive',
    224: 'OpControlBarrier',
    225: 'OpMemoryBarrier',
    227: 'OpAtomicLoad',
    228: 'OpAtomicStore',
    229: 'OpAtomicExchange',
    230: 'OpAtomicCompareExchange',
    231: 'OpAtomicCompareExchangeWeak',
    232: 'OpAtomicIIncrement',
    233: 'OpAtomicIDecrement',
    234: 'OpAtomicIAdd',
    235: 'OpAtomicISub',
    236: 'OpAtomicSMin',
    237: 'OpAtomicUMin',
    238: 'OpAtomicSMax',
    239: 'OpAtomicUMax',
    240: 'OpAtomicAnd',
    241: 'OpAtomicOr',
    242: 'OpAtomicXor',
    251: 'OpSwitch',
    252: 'OpKill',
    254: 'OpReturnValue',
    255: 'OpUnreachable',
    256: 'OpLifetimeStart',
    257: 'OpLifetimeStop',
    259: 'OpGroupAsyncCopy',
    260: 'OpGroupWaitEvents',
    261: 'OpGroupAll',
    262: 'OpGroupAny',
    263: 'OpGroupBroadcast',
    264: 'OpGroupIAdd',
    265: 'OpGroupFAdd',
    266: 'OpGroupFMin',
    267: 'OpGroupUMin',
    268: 'OpGroupSMin',
    269: 'OpGroupFMax',
    270: 'OpGroupUMax',
    271: 'OpGroupSMax',
    274: 'OpReadPipe',
    275: 'OpWritePipe',
    276: 'OpReservedReadPipe',
    277: 'OpReservedWritePipe',
    278: 'OpReserveReadPipePackets',
    279: 'OpReserveWritePipePackets',
    280: 'OpCommitReadPipe',
    281: 'OpCommitWritePipe',
    282: 'OpIsValidReserveId',
    283: 'OpGetNumPipePackets',
    284: 'OpGetMaxPipePackets',
    285: 'OpGroupReserveReadPipePackets',
    286: 'OpGroupReserveWritePipePackets',
    287: 'OpGroupCommitReadPipe',
    288: 'OpGroupCommitWritePipe',
    291: 'OpEnqueueMarker',
    292: 'OpEnqueueKernel',
    293: 'OpGetKernelNDrangeSubGroupCount',
    294: 'OpGetKernelNDrangeMaxSubGroupSize',
    295: 'OpGetKernelWorkGroupSize',
    296: 'OpGetKernelPreferredWorkGroupSizeMultiple',
    297: 'OpRetainEvent',
    298: 'OpReleaseEvent',
    299: 'OpCreateUserEvent',
    300: 'OpIsValidEvent',
    301: 'OpSetUserEventStatus',
    302: 'OpCaptureEventProfilingInfo',
    303: 'OpGetDefaultQueue',
    304: 'OpBuildNDRange',
    305: 'OpImageSparseSampleImplicitLod',
    306: 'OpImageSparseSampleExplicitLod',
    307: 'OpImageSparseSampleDrefImplicitLod',
    308: 'OpImageSparseSampleDrefExplicitLod',
    309: 'OpImageSparseSampleProjImplicitLod',
    310: 'OpImageSparseSampleProjExplicitLod',
    311: 'OpImageSparseSampleProjDrefImplicitLod',
    312: 'OpImageSparseSampleProjDrefExplicitLod',
    313: 'OpImageSparseFetch',
    314: 'OpImageSparseGather',
    315: 'OpImageSparseDrefGather',
    316: 'OpImageSparseTexelsResident',
    317: 'OpNoLine',
    318: 'OpAtomicFlagTestAndSet',
    319: 'OpAtomicFlagClear',
    320: 'OpImageSparseRead',
}
# errors of the reader: name, operand, text
ERRORS = [
    ('UnexpectedEndOfStream', '', 'unexpected end of stream'),
    ('UnexpectedStreamAlignment', '', 'stream is not word aligned'),
    ('BadMagic', '', 'invalid magic number'),
    ('UnknownVersionBytes', 'num(&s[1]) as u8, num(&s[2]) as u8, num(&s[3]) as u8, num(&s[4]) as u8', 'unknown version bytes'),
    ('UnknownVersion', 'Version(num(&s[1]) as u8, num(&s[2]) as u8)', 'unknown version'),
    ('UnknownReservedSchema', '', 'unknown reserved schema field'),
    ('UnknownOp', 'num(&s[1]) as u16, num(&s[2]) as u16', 'unknown op'),
    ('UnimplementedOp', 'leak(&s[1])', 'unimplemented op'),
    ('WrongWordCountForOp', '', 'op has invalid word count'),
    ('InvalidString', '', 'invalid string literal'),
    ('UnexpectedEndOfInstruction', '', "instruction didn't have enough data"),
    ('InstructionHadExcessData', '', "instruction didn't require all data"),
    ('UnknownInstSet', 'unhex(&s[1..])', 'unknown instruction set'),
    ('UnknownInstSetId', 'OpId(num(&s[1]))', 'extended instruction referenced unknown instruction set'),
    ('UnknownExtInstOp', 'leak(&s[1]), num(&s[2])', 'unknown op in extended instruction set'),
    ('DuplicateResultId', 'ResultId(num(&s[1]))', 'duplicate result id'),
    ('UnknownAddressingModel', 'u32', 'unknown addressing model'),
    ('UnknownMemoryModel', 'u32', 'unknown memory model'),
    ('UnknownExecutionModel', 'u32', 'unknown execution model'),
    ('UnknownExecutionMode', 'u32', 'unknown execution mode'),
    ('UnknownCapability', 'u32', 'unknown capability'),
    ('UnknownDecoration', 'u32', 'unknown decoration'),
    ('UnknownBuiltIn', 'u32', 'unknown built in'),
    ('UnknownFpRoundingMode', 'u32', 'unknown fp rounding mode'),
    ('UnknownFpFastMathMode', 'u32', 'unknown fp fast math mode'),
    ('UnknownLinkageType', 'u32', 'unknown linkage type'),
    ('UnknownSignedness', 'u32', 'unknown signedness'),
    ('UnknownStorageClass', 'u32', 'unknown storage class'),
    ('UnknownFunctionParameterAttribute', 'u32', 'unknown function parameter attribute'),
    ('UnknownFunctionControl', 'u32', 'unknown function control'),
    ('UnknownMemoryAccess', 'u32', 'unknown memory access'),
    ('UnknownDim', 'u32', 'unknown image dimension'),
    ('UnknownDepthStatus', 'u32', 'unknown image depth hint'),
    ('UnknownArrayed', 'u32', 'unknown image arrayed status'),
    ('UnknownMS', 'u32', 'unknown multisampled status'),
    ('UnknownSampledStatus', 'u32', 'unknown sampled hint'),
    ('UnknownImageFormat', 'u32', 'unknown image format'),
    ('UnknownAccessQualifier', 'u32', 'unknown access qualifier'),
    ('UnknownLoopControl', 'u32', 'unknown loop control'),
    ('UnknownSelectionControl', 'u32', 'unknown selection control'),
]
# enumerants: name -> [(value, variant, text)]
ENUMS = {
    'SamplerAddressingMode': [
        (0, 'None', 'None'),
        (1, 'ClampToEdge', 'ClampToEdge'),
        (2, 'Clamp', 'Clamp'),
        (3, 'Repeat', 'Repeat'),
        (4, 'RepeatMirrored', 'RepeatMirrored'),
    ],
    'SamplerParam': [
        (0, 'NonNormalized', '0'),
        (1, 'Normalized', '1'),
    ],
    'SamplerFilterMode': [
        (0, 'Nearest', 'Nearest'),
        (1, 'Linear', 'Linear'),
    ],
    'AddressingModel': [
        (0, 'Logical', 'Logical'),
        (1, 'Physical32', 'Physical32'),
        (2, 'Physical64', 'Physical64'),
    ],
    'MemoryModel': [
        (0, 'Simple', 'Simple'),
        (1, 'Glsl450', 'GLSL450'),
        (2, 'OpenCL', 'OpenCL'),
    ],
    'ExecutionModel': [
        (0, 'Vertex', 'Vertex'),
        (1, 'TesselationControl', 'TesselationControl'),
        (2, 'TesselationEvaluation', 'TesselationEvaluation'),
        (3, 'Geometry', 'Geometry'),
        (4, 'Fragment', 'Fragment'),
        (5, 'GlCompute', 'GLCompute'),
        (6, 'Kernel', 'Kernel'),
    ],
    'Capability': [
        (0, 'Matrix', 'Matrix'),
        (1, 'Shader', 'Shader'),
        (2, 'Geometry', 'Geometry'),
        (3, 'Tessellation', 'Tessellation'),
        (4, 'Addresses', 'Addresses'),
        (5, 'Linkage', 'Linkage'),
        (6, 'Kernel', 'Kernel'),
        (7, 'Vector16', 'Vector16'),
        (8, 'Float16Buffer', 'Float16Buffer'),
        (9, 'Float16', 'Float16'),
        (10, 'Float64', 'Float64'),
        (11, 'Int64', 'Int64'),
        (12, 'Int64Atomics', 'Int64Atomics'),
        (13, 'ImageBasic', 'ImageBasic'),
        (14, 'ImageReadWrite', 'ImageReadWrite'),
        (15, 'ImageMipmap', 'ImageMipmap'),
        (17, 'Pipes', 'Pipes'),
        (18, 'Groups', 'Groups'),
        (19, 'DeviceEnqueue', 'DeviceEnqueue'),
        (20, 'LiteralSampler', 'LiteralSampler'),
        (21, 'AtomicStorage', 'AtomicStorage'),
        (22, 'Int16', 'Int16'),
        (23, 'TessellationPointSize', 'TessellationPointSize'),
        (24, 'GeometryPointSize', 'GeometryPointSize'),
        (25, 'ImageGatherExtended', 'ImageGatherExtended'),
        (27, 'StorageImageMultisample', 'StorageImageMultisample'),
        (28, 'UniformBufferArrayDynamicIndexing', 'UniformBufferArrayDynamicIndexing'),
        (29, 'SampledImageArrayDynamicIndexing', 'SampledImageArrayDynamicIndexing'),
        (30, 'StorageBufferArrayDynamicIndexing', 'StorageBufferArrayDynamicIndexing'),
        (31, 'StorageImageArrayDynamicIndexing', 'StorageImageArrayDynamicIndexing'),
        (32, 'ClipDistance', 'ClipDistance'),
        (33, 'CullDistance', 'CullDistance'),
        (34, 'ImageCubeArray', 'ImageCubeArray'),
        (35, 'SampleRateShading', 'SampleRateShading'),
        (36, 'ImageRect', 'ImageRect'),
        (37, 'SampledRect', 'SampledRect'),
        (38, 'GenericPointer', 'GenericPointer'),
        (39, 'Int8', 'Int8'),
        (40, 'InputAttachment', 'InputAttachment'),
        (41, 'SparseResidency', 'SparseResidency'),
        (42, 'MinLod', 'MinLod'),
        (43, 'Sampled1D', 'Sampled1D'),
        (44, 'Image1D', 'Image1D'),
        (45, 'SampledCubeArray', 'SampledCubeArray'),
        (46, 'SampledBuffer', 'SampledBuffer'),
        (47, 'ImageBuffer', 'ImageBuffer'),
        (48, 'ImageMSArray', 'ImageMSArray'),
        (49, 'StorageImageExtendedFormats', 'StorageImageExtendedFormats'),
        (50, 'ImageQuery', 'ImageQuery'),
        (51, 'DerivativeControl', 'DerivativeControl'),
        (52, 'InterpolationFunction', 'InterpolationFunction'),
        (53, 'TransformFeedback', 'TransformFeedback'),
        (54, 'GeometryStreams', 'GeometryStreams'),
        (55, 'StorageImageReadWithoutFormat', 'StorageImageReadWithoutFormat'),
        (56, 'StorageImageWriteWithoutFormat', 'StorageImageWriteWithoutFormat'),
        (57, 'MultiViewport', 'MultiViewport'),
    ],
    'Signedness': [
        (0, 'UnsignedOrNone', '0'),
        (1, 'Signed', '1'),
    ],
    'Dim': [
        (0, 'Tex1D', '1D'),
        (1, 'Tex2D', '2D'),
        (2, 'Tex3D', '3D'),
        (3, 'Cube', 'Cube'),
        (4, 'Rect', 'Rect'),
        (5, 'Buffer', 'Buffer'),
        (6, 'SubpassData', 'SubpassData'),
    ],
    'DepthStatus': [
        (0, 'NotDepth', '0'),
        (1, 'Depth', '1'),
        (2, 'NoIndication', '2'),
    ],
    'Arrayed': [
        (0, 'False', '0'),
        (1, 'True', '1'),
    ],
    'MS': [
        (0, 'Single', '0'),
        (1, 'Multi', '1'),
    ],
    'SampledStatus': [
        (0, 'RuntimeChoice', '0'),
        (1, 'WithSampler', '1'),
        (2, 'WithoutSampler', '2'),
    ],
    'ImageFormat': [
        (0, 'Unknown', 'Unknown'),
        (1, 'Rgba32f', 'Rgba32f'),
        (2, 'Rgba16f', 'Rgba16f'),
        (3, 'R32f', 'R32f'),
        (4, 'Rgba8', 'Rgba8'),
        (5, 'Rgba8Snorm', 'Rgba8Snorm'),
        (6, 'Rg32f', 'Rg32f'),
        (7, 'Rg16f', 'Rg16f'),
        (8, 'R11fG11fB10f', 'R11fG11fB10f'),
        (9, 'R16f', 'R16f'),
        (10, 'Rgba16', 'Rgba16'),
        (11, 'Rgb10A2', 'Rgb10A2'),
        (12, 'Rg16', 'Rg16'),
        (13, 'Rg8', 'Rg8'),
        (14, 'R16', 'R16'),
        (15, 'R8', 'R8'),
        (16, 'Rgba16Snorm', 'Rgba16Snorm'),
        (17, 'Rg16Snorm', 'Rg16Snorm'),
        (18, 'Rg8Snorm', 'Rg8Snorm'),
        (19, 'R16Snorm', 'R16Snorm'),
        (20, 'R8Snorm', 'R8Snorm'),
        (21, 'Rgba32i', 'Rgba32i'),
        (22, 'Rgba16i', 'Rgba16i'),
        (23, 'Rgba8i', 'Rgba8i'),
        (24, 'R32i', 'R32i'),
        (25, 'Rg32i', 'Rg32i'),
        (26, 'Rg16i', 'Rg16i'),
        (27, 'Rg8i', 'Rg8i'),
        (28, 'R16i', 'R16i'),
        (29, 'R8i', 'R8i'),
        (30, 'Rgba32ui', 'Rgba32ui'),
        (31, 'Rgba16ui', 'Rgba16ui'),
        (32, 'Rgba8ui', 'Rgba8ui'),
        (33, 'R32ui', 'R32ui'),
        (34, 'Rgb10a2ui', 'Rgb10a2ui'),
        (35, 'Rg32ui', 'Rg32ui'),
        (36, 'Rg16ui', 'Rg16ui'),
        (37, 'Rg8ui', 'Rg8ui'),
        (38, 'R16ui', 'R16ui'),
        (39, 'R8ui', 'R8ui'),
    ],
    'AccessQualifier': [
        (0, 'ReadOnly', 'ReadOnly'),
        (1, 'WriteOnly', 'WriteOnly'),
        (2, 'ReadWrite', 'ReadWrite'),
    ],
    'StorageClass': [
        (0, 'UniformConstant', 'UniformConstant'),
        (1, 'Input', 'Input'),
        (2, 'Uniform', 'Uniform'),
        (3, 'Output', 'Output'),
        (4, 'Workgroup', 'Workgroup'),
        (5, 'CrossWorkgroup', 'CrossWorkgroup'),
        (6, 'Private', 'Private'),
        (7, 'Function', 'Function'),
        (8, 'Generic', 'Generic'),
        (9, 'PushConstant', 'PushConstant'),
        (10, 'AtomicCounter', 'AtomicCounter'),
        (11, 'Image', 'Image'),
    ],
    'BuiltIn': [
        (0, 'Position', 'Position'),
        (1, 'PointSize', 'PointSize'),
        (3, 'ClipDistance', 'ClipDistance'),
        (4, 'CullDistance', 'CullDistance'),
        (5, 'VertexId', 'VertexId'),
        (6, 'InstanceId', 'InstanceId'),
        (7, 'PrimitiveId', 'PrimitiveId'),
        (8, 'InvocationId', 'InvocationId'),
        (9, 'Layer', 'Layer'),
        (10, 'ViewportIndex', 'ViewportIndex'),
        (11, 'TessLevelOuter', 'TessLevelOuter'),
        (12, 'TessLevelInner', 'TessLevelInner'),
        (13, 'TessCoord', 'TessCoord'),
        (14, 'PatchVerticies', 'PatchVerticies'),
        (15, 'FragCoord', 'FragCoord'),
        (16, 'PointCoord', 'PointCoord'),
        (17, 'FrontFacing', 'FrontFacing'),
        (18, 'SampleId', 'SampleId'),
        (19, 'SamplePosition', 'SamplePosition'),
        (20, 'SampleMask', 'SampleMask'),
        (22, 'FragDepth', 'FragDepth'),
        (23, 'HelperInvocation', 'HelperInvocation'),
        (24, 'NumWorkgroups', 'NumWorkgroups'),
        (25, 'WorkgroupSize', 'WorkgroupSize'),
        (26, 'WorkgroupId', 'WorkgroupId'),
        (27, 'LocalInvocationId', 'LocalInvocationId'),
        (28, 'GlobalInvocationId', 'GlobalInvocationId'),
        (29, 'LocalInvocationIndex', 'LocalInvocationIndex'),
        (30, 'WorkDim', 'WorkDim'),
        (31, 'GlobalSize', 'GlobalSize'),
        (32, 'EnqueuedWorkgroupSize', 'EnqueuedWorkgroupSize'),
        (33, 'GlobalOffset', 'GlobalOffset'),
        (34, 'GlobalLinearId', 'GlobalLinearId'),
        (36, 'SubgroupSize', 'SubgroupSize'),
        (37, 'SubgroupMaxSize', 'SubgroupMaxSize'),
        (38, 'NumSubgroups', 'NumSubgroups'),
        (39, 'NumEnqueuedSubgroups', 'NumEnqueuedSubgroups'),
        (40, 'SubgroupId', 'SubgroupId'),
        (41, 'SubgroupLocalInvocationId', 'SubgroupLocalInvocationId'),
        (42, 'VertexIndex', 'VertexIndex'),
        (43, 'InstanceIndex', 'InstanceIndex'),
    ],
    'FunctionParameterAttribute': [
        (0, 'Zext', 'Zext'),
        (1, 'Sext', 'Sext'),
        (2, 'ByVal', 'ByVal'),
        (3, 'Sret', 'Sret'),
        (4, 'NoAlias', 'NoAlias'),
        (5, 'NoCapture', 'NoCapture'),
        (6, 'NoWrite', 'NoWrite'),
        (7, 'NoReadWrite', 'NoReadWrite'),
    ],
    'FpRoundingMode': [
        (0, 'Rte', 'RTE'),
        (1, 'Rtz', 'RTZ'),
        (2, 'Rtp', 'RTP'),
        (3, 'Rtn', 'RTN'),
    ],
    'LinkageType': [
        (0, 'Export', 'Export'),
        (1, 'Import', 'Import'),
    ],
}
# enumerants with operands: name -> [(value, variant, text, operand kinds)]
COMPS = {
    'ExecutionMode': [
        (0, 'Invocations', 'Invocations', ['u32']),
        (1, 'SpacingEqual', 'SpacingEqual', []),
        (2, 'SpacingFractionalEven', 'SpacingFractionalEven', []),
        (3, 'SpacingFractionalOdd', 'SpacingFractionalOdd', []),
        (4, 'VertexOrderCw', 'VertexOrderCw', []),
        (5, 'VertexOrderCcw', 'VertexOrderCcw', []),
        (6, 'PixelCenterInteger', 'PixelCenterInteger', []),
        (7, 'OriginUpperLeft', 'OriginUpperLeft', []),
        (8, 'OriginLowerLeft', 'OriginLowerLeft', []),
        (9, 'EarlyFragmentTests', 'EarlyFragmentTests', []),
        (10, 'PointMode', 'PointMode', []),
        (11, 'Xfb', 'Xfb', []),
        (12, 'DepthReplacing', 'DepthReplacing', []),
        (14, 'DepthGreater', 'DepthGreater', []),
        (15, 'DepthLess', 'DepthLess', []),
        (16, 'DepthUnchanged', 'DepthUnchanged', []),
        (17, 'LocalSize', 'LocalSize', ['u32', 'u32', 'u32']),
        (18, 'LocalSizeHint', 'LocalSizeHint', ['u32', 'u32', 'u32']),
        (19, 'InputPoints', 'InputPoints', []),
        (20, 'InputLines', 'InputLines', []),
        (21, 'InputLinesAdjacency', 'InputLinesAdjacency', []),
        (22, 'Triangles', 'Triangles', []),
        (23, 'InputTrianglesAdjacency', 'InputTrianglesAdjacency', []),
        (24, 'Quads', 'Quads', []),
        (25, 'Isolines', 'Isolines', []),
        (26, 'OutputVerticies', 'OutputVerticies', ['u32']),
        (27, 'OutputPoints', 'OutputPoints', []),
        (28, 'OutputLineStrip', 'OutputLineStrip', []),
        (29, 'OutputTriangleStrip', 'OutputTriangleStrip', []),
        (30, 'VecTypeHint', 'VecTypeHint', ['id']),
        (31, 'ContractionOff', 'ContractionOff', []),
    ],
    'Decoration': [
        (0, 'RelaxedPrecision', 'RelaxedPrecision', []),
        (1, 'SpecId', 'SpecId', ['u32']),
        (2, 'Block', 'Block', []),
        (3, 'BufferBlock', 'BufferBlock', []),
        (4, 'RowMajor', 'RowMajor', []),
        (5, 'ColMajor', 'ColMajor', []),
        (6, 'ArrayStride', 'ArrayStride', ['u32']),
        (7, 'MatrixStride', 'MatrixStride', ['u32']),
        (8, 'GlslShared', 'GLSLShared', []),
        (9, 'GlslPacked', 'GLSLPacked', []),
        (10, 'CPacked', 'CPacked', []),
        (11, 'BuiltIn', 'BuiltIn', ['enum:BuiltIn']),
        (13, 'NoPerspective', 'NoPerspective', []),
        (14, 'Flat', 'Flat', []),
        (15, 'Patch', 'Patch', []),
        (16, 'Centroid', 'Centroid', []),
        (17, 'Sample', 'Sample', []),
        (18, 'Invariant', 'Invariant', []),
        (19, 'Restrict', 'Restrict', []),
        (20, 'Aliased', 'Aliased', []),
        (21, 'Volatile', 'Volatile', []),
        (22, 'Constant', 'Constant', []),
        (23, 'Coherent', 'Coherent', []),
        (24, 'NonWritable', 'NonWritable', []),
        (25, 'NonReadable', 'NonReadable', []),
        (26, 'Uniform', 'Uniform', []),
        (28, 'SaturatedConversion', 'SaturatedConversion', []),
        (29, 'Stream', 'Stream', ['u32']),
        (30, 'Location', 'Location', ['u32']),
        (31, 'Component', 'Component', ['u32']),
        (32, 'Index', 'Index', ['u32']),
        (33, 'Binding', 'Binding', ['u32']),
        (34, 'DescriptorSet', 'DescriptorSet', ['u32']),
        (35, 'Offset', 'Offset', ['u32']),
        (36, 'XfbBuffer', 'XfbBuffer', ['u32']),
        (37, 'XfbStride', 'XfbStride', ['u32']),
        (38, 'FuncParamAttr', 'FuncParamAttr', ['enum:FunctionParameterAttribute']),
        (39, 'FpRoundingMode', 'FpRoundingMode', ['enum:FpRoundingMode']),
        (40, 'FpFastMathMode', 'FpFastMathMode', ['mask:FpFastMathMode']),
        (41, 'LinkageAttributes', 'LinkageAttributes', ['str', 'enum:LinkageType']),
        (42, 'NoContraction', 'NoContraction', []),
        (43, 'InputAttachmentIndex', 'InputAttachmentIndex', ['u32']),
        (44, 'Alignment', 'Alignment', ['u32']),
    ],
}
# masks: name -> [(bit, rust field, flag text)]
MASKS = {
    'FunctionControl': [(0, 'inline', 'Inline'), (1, 'dont_inline', 'DontInline'), (2, 'pure_function', 'Pure'), (3, 'const_function', 'Const')],
    'MemoryAccess': [(0, 'volatile', 'Volatile'), (1, 'aligned', 'Aligned'), (2, 'non_temporal', 'Nontemporal')],
    'LoopControl': [(0, 'unroll', 'Unroll'), (1, 'dont_unroll', 'DontUnroll'), (2, 'dependency_infinite', 'DependencyInfinite'), (3, 'dependency_length', 'DependencyLength')],
    'SelectionControl': [(0, 'flatten', 'Flatten'), (1, 'dont_flatten', 'DontFlatten')],
    'FpFastMathMode': [(0, 'not_nan', 'NotNaN'), (1, 'not_inf', 'NotInf'), (2, 'nsz', 'NSZ'), (3, 'allow_recip', 'AllowRecip'), (4, 'fast', 'Fast')],
}
# source languages: (value, variant, text); any other value is kept as a number
SRCLANG = [(0, 'Unknown', 'Unknown'), (1, 'Essl', 'ESSL'), (2, 'Glsl', 'GLSL'), (3, 'OpenCL_C', 'OpenCL_C'), (4, 'OpenCL_Cpp', 'OpenCL_CPP')]
# generator tools: (number, variant, text in the listing)
TOOLS = [(0, 'KhronosReserved', 'Khronos'), (1, 'LunarG', 'LunarG'), (2, 'Valve', 'Valve'), (3, 'Codeplay', 'Codeplay'),
         (4, 'Nvidia', 'NVIDIA'), (5, 'Arm', 'ARM'), (6, 'KhronosLLvmTranslator', 'Khronos LLVM/SPIR-V Translator'),
         (7, 'KhronosAssembler', 'Khronos SPIR-V Tools Assembler'), (8, 'KhronosGlslang', 'Khronos Glslang Reference Front End'),
         (9, 'Qualcomm', 'Qualcomm'), (10, 'Amd', 'AMD'), (11, 'Intel', 'Intel')]
# where an instruction belongs in a module
DEBUG = ['OpSourceContinued', 'OpSource', 'OpSourceExtension', 'OpName', 'OpMemberName', 'OpString']
ANNOT = ['OpDecorate', 'OpMemberDecorate']
SECTION = {'OpCapability': 'cap', 'OpExtension': 'ext', 'OpExtInstImport': 'imp', 'OpMemoryModel': 'mem',
           'OpEntryPoint': 'entry', 'OpExecutionMode': 'mode', 'OpFunction': 'func', 'OpFunctionParameter': 'param',
           'OpFunctionEnd': 'end', 'OpLabel': 'label', 'OpLoopMerge': 'merge', 'OpSelectionMerge': 'merge',
           'OpBranch': 'branch', 'OpBranchConditional': 'branch', 'OpReturn': 'branch'}


def section(name):
    """Section class of an instruction kind ('var' depends on the storage class)."""
    if name in SECTION:
        return SECTION[name]
    if name in DEBUG:
        return 'debug'
    if name in ANNOT:
        return 'annot'
    if name.startswith('OpType') or name in ('OpConstant', 'OpConstantComposite'):
        return 'global'
    if name == 'OpVariable':
        return 'var'
    return 'code'

