// Generated by tools/gen.py from tools/tables.py.
#![allow(unreachable_patterns, non_snake_case, unused_variables, dead_code)]
use magmaflow::spv::op::*;
use magmaflow::spv::types::*;
use magmaflow::spv::raw::{Core, ReadError, MemoryBlock, MemoryBlockResult};
use magmaflow::spv::logical::*;
use super::conv::*;

pub type Inst = Vec<Vec<String>>;

pub fn p_SamplerAddressingMode(x: &SamplerAddressingMode) -> String { match *x {
  SamplerAddressingMode::None => "None",
  SamplerAddressingMode::ClampToEdge => "ClampToEdge",
  SamplerAddressingMode::Clamp => "Clamp",
  SamplerAddressingMode::Repeat => "Repeat",
  SamplerAddressingMode::RepeatMirrored => "RepeatMirrored",
  _ => "?" }.to_string() }
pub fn b_SamplerAddressingMode(s: &str) -> SamplerAddressingMode { match s {
  "None" => SamplerAddressingMode::None,
  "ClampToEdge" => SamplerAddressingMode::ClampToEdge,
  "Clamp" => SamplerAddressingMode::Clamp,
  "Repeat" => SamplerAddressingMode::Repeat,
  "RepeatMirrored" => SamplerAddressingMode::RepeatMirrored,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_SamplerParam(x: &SamplerParam) -> String { match *x {
  SamplerParam::NonNormalized => "NonNormalized",
  SamplerParam::Normalized => "Normalized",
  _ => "?" }.to_string() }
pub fn b_SamplerParam(s: &str) -> SamplerParam { match s {
  "NonNormalized" => SamplerParam::NonNormalized,
  "Normalized" => SamplerParam::Normalized,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_SamplerFilterMode(x: &SamplerFilterMode) -> String { match *x {
  SamplerFilterMode::Nearest => "Nearest",
  SamplerFilterMode::Linear => "Linear",
  _ => "?" }.to_string() }
pub fn b_SamplerFilterMode(s: &str) -> SamplerFilterMode { match s {
  "Nearest" => SamplerFilterMode::Nearest,
  "Linear" => SamplerFilterMode::Linear,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_AddressingModel(x: &AddressingModel) -> String { match *x {
  AddressingModel::Logical => "Logical",
  AddressingModel::Physical32 => "Physical32",
  AddressingModel::Physical64 => "Physical64",
  _ => "?" }.to_string() }
pub fn b_AddressingModel(s: &str) -> AddressingModel { match s {
  "Logical" => AddressingModel::Logical,
  "Physical32" => AddressingModel::Physical32,
  "Physical64" => AddressingModel::Physical64,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_MemoryModel(x: &MemoryModel) -> String { match *x {
  MemoryModel::Simple => "Simple",
  MemoryModel::Glsl450 => "Glsl450",
  MemoryModel::OpenCL => "OpenCL",
  _ => "?" }.to_string() }
pub fn b_MemoryModel(s: &str) -> MemoryModel { match s {
  "Simple" => MemoryModel::Simple,
  "Glsl450" => MemoryModel::Glsl450,
  "OpenCL" => MemoryModel::OpenCL,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_ExecutionModel(x: &ExecutionModel) -> String { match *x {
  ExecutionModel::Vertex => "Vertex",
  ExecutionModel::TesselationControl => "TesselationControl",
  ExecutionModel::TesselationEvaluation => "TesselationEvaluation",
  ExecutionModel::Geometry => "Geometry",
  ExecutionModel::Fragment => "Fragment",
  ExecutionModel::GlCompute => "GlCompute",
  ExecutionModel::Kernel => "Kernel",
  _ => "?" }.to_string() }
pub fn b_ExecutionModel(s: &str) -> ExecutionModel { match s {
  "Vertex" => ExecutionModel::Vertex,
  "TesselationControl" => ExecutionModel::TesselationControl,
  "TesselationEvaluation" => ExecutionModel::TesselationEvaluation,
  "Geometry" => ExecutionModel::Geometry,
  "Fragment" => ExecutionModel::Fragment,
  "GlCompute" => ExecutionModel::GlCompute,
  "Kernel" => ExecutionModel::Kernel,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_Capability(x: &Capability) -> String { match *x {
  Capability::Matrix => "Matrix",
  Capability::Shader => "Shader",
  Capability::Geometry => "Geometry",
  Capability::Tessellation => "Tessellation",
  Capability::Addresses => "Addresses",
  Capability::Linkage => "Linkage",
  Capability::Kernel => "Kernel",
  Capability::Vector16 => "Vector16",
  Capability::Float16Buffer => "Float16Buffer",
  Capability::Float16 => "Float16",
  Capability::Float64 => "Float64",
  Capability::Int64 => "Int64",
  Capability::Int64Atomics => "Int64Atomics",
  Capability::ImageBasic => "ImageBasic",
  Capability::ImageReadWrite => "ImageReadWrite",
  Capability::ImageMipmap => "ImageMipmap",
  Capability::Pipes => "Pipes",
  Capability::Groups => "Groups",
  Capability::DeviceEnqueue => "DeviceEnqueue",
  Capability::LiteralSampler => "LiteralSampler",
  Capability::AtomicStorage => "AtomicStorage",
  Capability::Int16 => "Int16",
  Capability::TessellationPointSize => "TessellationPointSize",
  Capability::GeometryPointSize => "GeometryPointSize",
  Capability::ImageGatherExtended => "ImageGatherExtended",
  Capability::StorageImageMultisample => "StorageImageMultisample",
  Capability::UniformBufferArrayDynamicIndexing => "UniformBufferArrayDynamicIndexing",
  Capability::SampledImageArrayDynamicIndexing => "SampledImageArrayDynamicIndexing",
  Capability::StorageBufferArrayDynamicIndexing => "StorageBufferArrayDynamicIndexing",
  Capability::StorageImageArrayDynamicIndexing => "StorageImageArrayDynamicIndexing",
  Capability::ClipDistance => "ClipDistance",
  Capability::CullDistance => "CullDistance",
  Capability::ImageCubeArray => "ImageCubeArray",
  Capability::SampleRateShading => "SampleRateShading",
  Capability::ImageRect => "ImageRect",
  Capability::SampledRect => "SampledRect",
  Capability::GenericPointer => "GenericPointer",
  Capability::Int8 => "Int8",
  Capability::InputAttachment => "InputAttachment",
  Capability::SparseResidency => "SparseResidency",
  Capability::MinLod => "MinLod",
  Capability::Sampled1D => "Sampled1D",
  Capability::Image1D => "Image1D",
  Capability::SampledCubeArray => "SampledCubeArray",
  Capability::SampledBuffer => "SampledBuffer",
  Capability::ImageBuffer => "ImageBuffer",
  Capability::ImageMSArray => "ImageMSArray",
  Capability::StorageImageExtendedFormats => "StorageImageExtendedFormats",
  Capability::ImageQuery => "ImageQuery",
  Capability::DerivativeControl => "DerivativeControl",
  Capability::InterpolationFunction => "InterpolationFunction",
  Capability::TransformFeedback => "TransformFeedback",
  Capability::GeometryStreams => "GeometryStreams",
  Capability::StorageImageReadWithoutFormat => "StorageImageReadWithoutFormat",
  Capability::StorageImageWriteWithoutFormat => "StorageImageWriteWithoutFormat",
  Capability::MultiViewport => "MultiViewport",
  _ => "?" }.to_string() }
pub fn b_Capability(s: &str) -> Capability { match s {
  "Matrix" => Capability::Matrix,
  "Shader" => Capability::Shader,
  "Geometry" => Capability::Geometry,
  "Tessellation" => Capability::Tessellation,
  "Addresses" => Capability::Addresses,
  "Linkage" => Capability::Linkage,
  "Kernel" => Capability::Kernel,
  "Vector16" => Capability::Vector16,
  "Float16Buffer" => Capability::Float16Buffer,
  "Float16" => Capability::Float16,
  "Float64" => Capability::Float64,
  "Int64" => Capability::Int64,
  "Int64Atomics" => Capability::Int64Atomics,
  "ImageBasic" => Capability::ImageBasic,
  "ImageReadWrite" => Capability::ImageReadWrite,
  "ImageMipmap" => Capability::ImageMipmap,
  "Pipes" => Capability::Pipes,
  "Groups" => Capability::Groups,
  "DeviceEnqueue" => Capability::DeviceEnqueue,
  "LiteralSampler" => Capability::LiteralSampler,
  "AtomicStorage" => Capability::AtomicStorage,
  "Int16" => Capability::Int16,
  "TessellationPointSize" => Capability::TessellationPointSize,
  "GeometryPointSize" => Capability::GeometryPointSize,
  "ImageGatherExtended" => Capability::ImageGatherExtended,
  "StorageImageMultisample" => Capability::StorageImageMultisample,
  "UniformBufferArrayDynamicIndexing" => Capability::UniformBufferArrayDynamicIndexing,
  "SampledImageArrayDynamicIndexing" => Capability::SampledImageArrayDynamicIndexing,
  "StorageBufferArrayDynamicIndexing" => Capability::StorageBufferArrayDynamicIndexing,
  "StorageImageArrayDynamicIndexing" => Capability::StorageImageArrayDynamicIndexing,
  "ClipDistance" => Capability::ClipDistance,
  "CullDistance" => Capability::CullDistance,
  "ImageCubeArray" => Capability::ImageCubeArray,
  "SampleRateShading" => Capability::SampleRateShading,
  "ImageRect" => Capability::ImageRect,
  "SampledRect" => Capability::SampledRect,
  "GenericPointer" => Capability::GenericPointer,
  "Int8" => Capability::Int8,
  "InputAttachment" => Capability::InputAttachment,
  "SparseResidency" => Capability::SparseResidency,
  "MinLod" => Capability::MinLod,
  "Sampled1D" => Capability::Sampled1D,
  "Image1D" => Capability::Image1D,
  "SampledCubeArray" => Capability::SampledCubeArray,
  "SampledBuffer" => Capability::SampledBuffer,
  "ImageBuffer" => Capability::ImageBuffer,
  "ImageMSArray" => Capability::ImageMSArray,
  "StorageImageExtendedFormats" => Capability::StorageImageExtendedFormats,
  "ImageQuery" => Capability::ImageQuery,
  "DerivativeControl" => Capability::DerivativeControl,
  "InterpolationFunction" => Capability::InterpolationFunction,
  "TransformFeedback" => Capability::TransformFeedback,
  "GeometryStreams" => Capability::GeometryStreams,
  "StorageImageReadWithoutFormat" => Capability::StorageImageReadWithoutFormat,
  "StorageImageWriteWithoutFormat" => Capability::StorageImageWriteWithoutFormat,
  "MultiViewport" => Capability::MultiViewport,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_Signedness(x: &Signedness) -> String { match *x {
  Signedness::UnsignedOrNone => "UnsignedOrNone",
  Signedness::Signed => "Signed",
  _ => "?" }.to_string() }
pub fn b_Signedness(s: &str) -> Signedness { match s {
  "UnsignedOrNone" => Signedness::UnsignedOrNone,
  "Signed" => Signedness::Signed,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_Dim(x: &Dim) -> String { match *x {
  Dim::Tex1D => "Tex1D",
  Dim::Tex2D => "Tex2D",
  Dim::Tex3D => "Tex3D",
  Dim::Cube => "Cube",
  Dim::Rect => "Rect",
  Dim::Buffer => "Buffer",
  Dim::SubpassData => "SubpassData",
  _ => "?" }.to_string() }
pub fn b_Dim(s: &str) -> Dim { match s {
  "Tex1D" => Dim::Tex1D,
  "Tex2D" => Dim::Tex2D,
  "Tex3D" => Dim::Tex3D,
  "Cube" => Dim::Cube,
  "Rect" => Dim::Rect,
  "Buffer" => Dim::Buffer,
  "SubpassData" => Dim::SubpassData,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_DepthStatus(x: &DepthStatus) -> String { match *x {
  DepthStatus::NotDepth => "NotDepth",
  DepthStatus::Depth => "Depth",
  DepthStatus::NoIndication => "NoIndication",
  _ => "?" }.to_string() }
pub fn b_DepthStatus(s: &str) -> DepthStatus { match s {
  "NotDepth" => DepthStatus::NotDepth,
  "Depth" => DepthStatus::Depth,
  "NoIndication" => DepthStatus::NoIndication,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_Arrayed(x: &Arrayed) -> String { match *x {
  Arrayed::False => "False",
  Arrayed::True => "True",
  _ => "?" }.to_string() }
pub fn b_Arrayed(s: &str) -> Arrayed { match s {
  "False" => Arrayed::False,
  "True" => Arrayed::True,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_MS(x: &MS) -> String { match *x {
  MS::Single => "Single",
  MS::Multi => "Multi",
  _ => "?" }.to_string() }
pub fn b_MS(s: &str) -> MS { match s {
  "Single" => MS::Single,
  "Multi" => MS::Multi,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_SampledStatus(x: &SampledStatus) -> String { match *x {
  SampledStatus::RuntimeChoice => "RuntimeChoice",
  SampledStatus::WithSampler => "WithSampler",
  SampledStatus::WithoutSampler => "WithoutSampler",
  _ => "?" }.to_string() }
pub fn b_SampledStatus(s: &str) -> SampledStatus { match s {
  "RuntimeChoice" => SampledStatus::RuntimeChoice,
  "WithSampler" => SampledStatus::WithSampler,
  "WithoutSampler" => SampledStatus::WithoutSampler,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_ImageFormat(x: &ImageFormat) -> String { match *x {
  ImageFormat::Unknown => "Unknown",
  ImageFormat::Rgba32f => "Rgba32f",
  ImageFormat::Rgba16f => "Rgba16f",
  ImageFormat::R32f => "R32f",
  ImageFormat::Rgba8 => "Rgba8",
  ImageFormat::Rgba8Snorm => "Rgba8Snorm",
  ImageFormat::Rg32f => "Rg32f",
  ImageFormat::Rg16f => "Rg16f",
  ImageFormat::R11fG11fB10f => "R11fG11fB10f",
  ImageFormat::R16f => "R16f",
  ImageFormat::Rgba16 => "Rgba16",
  ImageFormat::Rgb10A2 => "Rgb10A2",
  ImageFormat::Rg16 => "Rg16",
  ImageFormat::Rg8 => "Rg8",
  ImageFormat::R16 => "R16",
  ImageFormat::R8 => "R8",
  ImageFormat::Rgba16Snorm => "Rgba16Snorm",
  ImageFormat::Rg16Snorm => "Rg16Snorm",
  ImageFormat::Rg8Snorm => "Rg8Snorm",
  ImageFormat::R16Snorm => "R16Snorm",
  ImageFormat::R8Snorm => "R8Snorm",
  ImageFormat::Rgba32i => "Rgba32i",
  ImageFormat::Rgba16i => "Rgba16i",
  ImageFormat::Rgba8i => "Rgba8i",
  ImageFormat::R32i => "R32i",
  ImageFormat::Rg32i => "Rg32i",
  ImageFormat::Rg16i => "Rg16i",
  ImageFormat::Rg8i => "Rg8i",
  ImageFormat::R16i => "R16i",
  ImageFormat::R8i => "R8i",
  ImageFormat::Rgba32ui => "Rgba32ui",
  ImageFormat::Rgba16ui => "Rgba16ui",
  ImageFormat::Rgba8ui => "Rgba8ui",
  ImageFormat::R32ui => "R32ui",
  ImageFormat::Rgb10a2ui => "Rgb10a2ui",
  ImageFormat::Rg32ui => "Rg32ui",
  ImageFormat::Rg16ui => "Rg16ui",
  ImageFormat::Rg8ui => "Rg8ui",
  ImageFormat::R16ui => "R16ui",
  ImageFormat::R8ui => "R8ui",
  _ => "?" }.to_string() }
pub fn b_ImageFormat(s: &str) -> ImageFormat { match s {
  "Unknown" => ImageFormat::Unknown,
  "Rgba32f" => ImageFormat::Rgba32f,
  "Rgba16f" => ImageFormat::Rgba16f,
  "R32f" => ImageFormat::R32f,
  "Rgba8" => ImageFormat::Rgba8,
  "Rgba8Snorm" => ImageFormat::Rgba8Snorm,
  "Rg32f" => ImageFormat::Rg32f,
  "Rg16f" => ImageFormat::Rg16f,
  "R11fG11fB10f" => ImageFormat::R11fG11fB10f,
  "R16f" => ImageFormat::R16f,
  "Rgba16" => ImageFormat::Rgba16,
  "Rgb10A2" => ImageFormat::Rgb10A2,
  "Rg16" => ImageFormat::Rg16,
  "Rg8" => ImageFormat::Rg8,
  "R16" => ImageFormat::R16,
  "R8" => ImageFormat::R8,
  "Rgba16Snorm" => ImageFormat::Rgba16Snorm,
  "Rg16Snorm" => ImageFormat::Rg16Snorm,
  "Rg8Snorm" => ImageFormat::Rg8Snorm,
  "R16Snorm" => ImageFormat::R16Snorm,
  "R8Snorm" => ImageFormat::R8Snorm,
  "Rgba32i" => ImageFormat::Rgba32i,
  "Rgba16i" => ImageFormat::Rgba16i,
  "Rgba8i" => ImageFormat::Rgba8i,
  "R32i" => ImageFormat::R32i,
  "Rg32i" => ImageFormat::Rg32i,
  "Rg16i" => ImageFormat::Rg16i,
  "Rg8i" => ImageFormat::Rg8i,
  "R16i" => ImageFormat::R16i,
  "R8i" => ImageFormat::R8i,
  "Rgba32ui" => ImageFormat::Rgba32ui,
  "Rgba16ui" => ImageFormat::Rgba16ui,
  "Rgba8ui" => ImageFormat::Rgba8ui,
  "R32ui" => ImageFormat::R32ui,
  "Rgb10a2ui" => ImageFormat::Rgb10a2ui,
  "Rg32ui" => ImageFormat::Rg32ui,
  "Rg16ui" => ImageFormat::Rg16ui,
  "Rg8ui" => ImageFormat::Rg8ui,
  "R16ui" => ImageFormat::R16ui,
  "R8ui" => ImageFormat::R8ui,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_AccessQualifier(x: &AccessQualifier) -> String { match *x {
  AccessQualifier::ReadOnly => "ReadOnly",
  AccessQualifier::WriteOnly => "WriteOnly",
  AccessQualifier::ReadWrite => "ReadWrite",
  _ => "?" }.to_string() }
pub fn b_AccessQualifier(s: &str) -> AccessQualifier { match s {
  "ReadOnly" => AccessQualifier::ReadOnly,
  "WriteOnly" => AccessQualifier::WriteOnly,
  "ReadWrite" => AccessQualifier::ReadWrite,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_StorageClass(x: &StorageClass) -> String { match *x {
  StorageClass::UniformConstant => "UniformConstant",
  StorageClass::Input => "Input",
  StorageClass::Uniform => "Uniform",
  StorageClass::Output => "Output",
  StorageClass::Workgroup => "Workgroup",
  StorageClass::CrossWorkgroup => "CrossWorkgroup",
  StorageClass::Private => "Private",
  StorageClass::Function => "Function",
  StorageClass::Generic => "Generic",
  StorageClass::PushConstant => "PushConstant",
  StorageClass::AtomicCounter => "AtomicCounter",
  StorageClass::Image => "Image",
  _ => "?" }.to_string() }
pub fn b_StorageClass(s: &str) -> StorageClass { match s {
  "UniformConstant" => StorageClass::UniformConstant,
  "Input" => StorageClass::Input,
  "Uniform" => StorageClass::Uniform,
  "Output" => StorageClass::Output,
  "Workgroup" => StorageClass::Workgroup,
  "CrossWorkgroup" => StorageClass::CrossWorkgroup,
  "Private" => StorageClass::Private,
  "Function" => StorageClass::Function,
  "Generic" => StorageClass::Generic,
  "PushConstant" => StorageClass::PushConstant,
  "AtomicCounter" => StorageClass::AtomicCounter,
  "Image" => StorageClass::Image,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_BuiltIn(x: &BuiltIn) -> String { match *x {
  BuiltIn::Position => "Position",
  BuiltIn::PointSize => "PointSize",
  BuiltIn::ClipDistance => "ClipDistance",
  BuiltIn::CullDistance => "CullDistance",
  BuiltIn::VertexId => "VertexId",
  BuiltIn::InstanceId => "InstanceId",
  BuiltIn::PrimitiveId => "PrimitiveId",
  BuiltIn::InvocationId => "InvocationId",
  BuiltIn::Layer => "Layer",
  BuiltIn::ViewportIndex => "ViewportIndex",
  BuiltIn::TessLevelOuter => "TessLevelOuter",
  BuiltIn::TessLevelInner => "TessLevelInner",
  BuiltIn::TessCoord => "TessCoord",
  BuiltIn::PatchVerticies => "PatchVerticies",
  BuiltIn::FragCoord => "FragCoord",
  BuiltIn::PointCoord => "PointCoord",
  BuiltIn::FrontFacing => "FrontFacing",
  BuiltIn::SampleId => "SampleId",
  BuiltIn::SamplePosition => "SamplePosition",
  BuiltIn::SampleMask => "SampleMask",
  BuiltIn::FragDepth => "FragDepth",
  BuiltIn::HelperInvocation => "HelperInvocation",
  BuiltIn::NumWorkgroups => "NumWorkgroups",
  BuiltIn::WorkgroupSize => "WorkgroupSize",
  BuiltIn::WorkgroupId => "WorkgroupId",
  BuiltIn::LocalInvocationId => "LocalInvocationId",
  BuiltIn::GlobalInvocationId => "GlobalInvocationId",
  BuiltIn::LocalInvocationIndex => "LocalInvocationIndex",
  BuiltIn::WorkDim => "WorkDim",
  BuiltIn::GlobalSize => "GlobalSize",
  BuiltIn::EnqueuedWorkgroupSize => "EnqueuedWorkgroupSize",
  BuiltIn::GlobalOffset => "GlobalOffset",
  BuiltIn::GlobalLinearId => "GlobalLinearId",
  BuiltIn::SubgroupSize => "SubgroupSize",
  BuiltIn::SubgroupMaxSize => "SubgroupMaxSize",
  BuiltIn::NumSubgroups => "NumSubgroups",
  BuiltIn::NumEnqueuedSubgroups => "NumEnqueuedSubgroups",
  BuiltIn::SubgroupId => "SubgroupId",
  BuiltIn::SubgroupLocalInvocationId => "SubgroupLocalInvocationId",
  BuiltIn::VertexIndex => "VertexIndex",
  BuiltIn::InstanceIndex => "InstanceIndex",
  _ => "?" }.to_string() }
pub fn b_BuiltIn(s: &str) -> BuiltIn { match s {
  "Position" => BuiltIn::Position,
  "PointSize" => BuiltIn::PointSize,
  "ClipDistance" => BuiltIn::ClipDistance,
  "CullDistance" => BuiltIn::CullDistance,
  "VertexId" => BuiltIn::VertexId,
  "InstanceId" => BuiltIn::InstanceId,
  "PrimitiveId" => BuiltIn::PrimitiveId,
  "InvocationId" => BuiltIn::InvocationId,
  "Layer" => BuiltIn::Layer,
  "ViewportIndex" => BuiltIn::ViewportIndex,
  "TessLevelOuter" => BuiltIn::TessLevelOuter,
  "TessLevelInner" => BuiltIn::TessLevelInner,
  "TessCoord" => BuiltIn::TessCoord,
  "PatchVerticies" => BuiltIn::PatchVerticies,
  "FragCoord" => BuiltIn::FragCoord,
  "PointCoord" => BuiltIn::PointCoord,
  "FrontFacing" => BuiltIn::FrontFacing,
  "SampleId" => BuiltIn::SampleId,
  "SamplePosition" => BuiltIn::SamplePosition,
  "SampleMask" => BuiltIn::SampleMask,
  "FragDepth" => BuiltIn::FragDepth,
  "HelperInvocation" => BuiltIn::HelperInvocation,
  "NumWorkgroups" => BuiltIn::NumWorkgroups,
  "WorkgroupSize" => BuiltIn::WorkgroupSize,
  "WorkgroupId" => BuiltIn::WorkgroupId,
  "LocalInvocationId" => BuiltIn::LocalInvocationId,
  "GlobalInvocationId" => BuiltIn::GlobalInvocationId,
  "LocalInvocationIndex" => BuiltIn::LocalInvocationIndex,
  "WorkDim" => BuiltIn::WorkDim,
  "GlobalSize" => BuiltIn::GlobalSize,
  "EnqueuedWorkgroupSize" => BuiltIn::EnqueuedWorkgroupSize,
  "GlobalOffset" => BuiltIn::GlobalOffset,
  "GlobalLinearId" => BuiltIn::GlobalLinearId,
  "SubgroupSize" => BuiltIn::SubgroupSize,
  "SubgroupMaxSize" => BuiltIn::SubgroupMaxSize,
  "NumSubgroups" => BuiltIn::NumSubgroups,
  "NumEnqueuedSubgroups" => BuiltIn::NumEnqueuedSubgroups,
  "SubgroupId" => BuiltIn::SubgroupId,
  "SubgroupLocalInvocationId" => BuiltIn::SubgroupLocalInvocationId,
  "VertexIndex" => BuiltIn::VertexIndex,
  "InstanceIndex" => BuiltIn::InstanceIndex,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_FunctionParameterAttribute(x: &FunctionParameterAttribute) -> String { match *x {
  FunctionParameterAttribute::Zext => "Zext",
  FunctionParameterAttribute::Sext => "Sext",
  FunctionParameterAttribute::ByVal => "ByVal",
  FunctionParameterAttribute::Sret => "Sret",
  FunctionParameterAttribute::NoAlias => "NoAlias",
  FunctionParameterAttribute::NoCapture => "NoCapture",
  FunctionParameterAttribute::NoWrite => "NoWrite",
  FunctionParameterAttribute::NoReadWrite => "NoReadWrite",
  _ => "?" }.to_string() }
pub fn b_FunctionParameterAttribute(s: &str) -> FunctionParameterAttribute { match s {
  "Zext" => FunctionParameterAttribute::Zext,
  "Sext" => FunctionParameterAttribute::Sext,
  "ByVal" => FunctionParameterAttribute::ByVal,
  "Sret" => FunctionParameterAttribute::Sret,
  "NoAlias" => FunctionParameterAttribute::NoAlias,
  "NoCapture" => FunctionParameterAttribute::NoCapture,
  "NoWrite" => FunctionParameterAttribute::NoWrite,
  "NoReadWrite" => FunctionParameterAttribute::NoReadWrite,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_FpRoundingMode(x: &FpRoundingMode) -> String { match *x {
  FpRoundingMode::Rte => "Rte",
  FpRoundingMode::Rtz => "Rtz",
  FpRoundingMode::Rtp => "Rtp",
  FpRoundingMode::Rtn => "Rtn",
  _ => "?" }.to_string() }
pub fn b_FpRoundingMode(s: &str) -> FpRoundingMode { match s {
  "Rte" => FpRoundingMode::Rte,
  "Rtz" => FpRoundingMode::Rtz,
  "Rtp" => FpRoundingMode::Rtp,
  "Rtn" => FpRoundingMode::Rtn,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_LinkageType(x: &LinkageType) -> String { match *x {
  LinkageType::Export => "Export",
  LinkageType::Import => "Import",
  _ => "?" }.to_string() }
pub fn b_LinkageType(s: &str) -> LinkageType { match s {
  "Export" => LinkageType::Export,
  "Import" => LinkageType::Import,
  _ => panic!("HARNESS bad enumerant {}", s) } }
pub fn p_FunctionControl(x: &FunctionControl) -> Vec<String> { let mut v = Vec::new();
  if x.inline { v.push("Inline".to_string()); }
  if x.dont_inline { v.push("DontInline".to_string()); }
  if x.pure_function { v.push("Pure".to_string()); }
  if x.const_function { v.push("Const".to_string()); }
  v }
pub fn b_FunctionControl(s: &[String]) -> FunctionControl { let has = |k: &str| s.iter().any(|x| x == k); FunctionControl {
  inline: has("Inline"),
  dont_inline: has("DontInline"),
  pure_function: has("Pure"),
  const_function: has("Const"),
} }
pub fn p_MemoryAccess(x: &MemoryAccess) -> Vec<String> { let mut v = Vec::new();
  if x.volatile { v.push("Volatile".to_string()); }
  if x.aligned { v.push("Aligned".to_string()); }
  if x.non_temporal { v.push("Nontemporal".to_string()); }
  v }
pub fn b_MemoryAccess(s: &[String]) -> MemoryAccess { let has = |k: &str| s.iter().any(|x| x == k); MemoryAccess {
  volatile: has("Volatile"),
  aligned: has("Aligned"),
  non_temporal: has("Nontemporal"),
} }
pub fn p_LoopControl(x: &LoopControl) -> Vec<String> { let mut v = Vec::new();
  if x.unroll { v.push("Unroll".to_string()); }
  if x.dont_unroll { v.push("DontUnroll".to_string()); }
  if x.dependency_infinite { v.push("DependencyInfinite".to_string()); }
  if let Some(ref n) = x.dependency_length { v.push("DependencyLength".to_string()); v.push(n.to_string()); }
  v }
pub fn b_LoopControl(s: &[String]) -> LoopControl { let has = |k: &str| s.iter().any(|x| x == k); LoopControl {
  unroll: has("Unroll"),
  dont_unroll: has("DontUnroll"),
  dependency_infinite: has("DependencyInfinite"),
  dependency_length: if has("DependencyLength") { Some(num(s.last().unwrap())) } else { None },
} }
pub fn p_SelectionControl(x: &SelectionControl) -> Vec<String> { let mut v = Vec::new();
  if x.flatten { v.push("Flatten".to_string()); }
  if x.dont_flatten { v.push("DontFlatten".to_string()); }
  v }
pub fn b_SelectionControl(s: &[String]) -> SelectionControl { let has = |k: &str| s.iter().any(|x| x == k); SelectionControl {
  flatten: has("Flatten"),
  dont_flatten: has("DontFlatten"),
} }
pub fn p_FpFastMathMode(x: &FpFastMathMode) -> Vec<String> { let mut v = Vec::new();
  if x.not_nan { v.push("NotNaN".to_string()); }
  if x.not_inf { v.push("NotInf".to_string()); }
  if x.nsz { v.push("NSZ".to_string()); }
  if x.allow_recip { v.push("AllowRecip".to_string()); }
  if x.fast { v.push("Fast".to_string()); }
  v }
pub fn b_FpFastMathMode(s: &[String]) -> FpFastMathMode { let has = |k: &str| s.iter().any(|x| x == k); FpFastMathMode {
  not_nan: has("NotNaN"),
  not_inf: has("NotInf"),
  nsz: has("NSZ"),
  allow_recip: has("AllowRecip"),
  fast: has("Fast"),
} }
pub fn p_ExecutionMode(x: &ExecutionMode) -> Vec<String> { match *x {
  ExecutionMode::Invocations(ref a0) => { let mut v = vec!["Invocations".to_string()];
    v.push(a0.to_string());
    v }
  ExecutionMode::SpacingEqual => vec!["SpacingEqual".to_string()],
  ExecutionMode::SpacingFractionalEven => vec!["SpacingFractionalEven".to_string()],
  ExecutionMode::SpacingFractionalOdd => vec!["SpacingFractionalOdd".to_string()],
  ExecutionMode::VertexOrderCw => vec!["VertexOrderCw".to_string()],
  ExecutionMode::VertexOrderCcw => vec!["VertexOrderCcw".to_string()],
  ExecutionMode::PixelCenterInteger => vec!["PixelCenterInteger".to_string()],
  ExecutionMode::OriginUpperLeft => vec!["OriginUpperLeft".to_string()],
  ExecutionMode::OriginLowerLeft => vec!["OriginLowerLeft".to_string()],
  ExecutionMode::EarlyFragmentTests => vec!["EarlyFragmentTests".to_string()],
  ExecutionMode::PointMode => vec!["PointMode".to_string()],
  ExecutionMode::Xfb => vec!["Xfb".to_string()],
  ExecutionMode::DepthReplacing => vec!["DepthReplacing".to_string()],
  ExecutionMode::DepthGreater => vec!["DepthGreater".to_string()],
  ExecutionMode::DepthLess => vec!["DepthLess".to_string()],
  ExecutionMode::DepthUnchanged => vec!["DepthUnchanged".to_string()],
  ExecutionMode::LocalSize(ref a0, ref a1, ref a2) => { let mut v = vec!["LocalSize".to_string()];
    v.push(a0.to_string());
    v.push(a1.to_string());
    v.push(a2.to_string());
    v }
  ExecutionMode::LocalSizeHint(ref a0, ref a1, ref a2) => { let mut v = vec!["LocalSizeHint".to_string()];
    v.push(a0.to_string());
    v.push(a1.to_string());
    v.push(a2.to_string());
    v }
  ExecutionMode::InputPoints => vec!["InputPoints".to_string()],
  ExecutionMode::InputLines => vec!["InputLines".to_string()],
  ExecutionMode::InputLinesAdjacency => vec!["InputLinesAdjacency".to_string()],
  ExecutionMode::Triangles => vec!["Triangles".to_string()],
  ExecutionMode::InputTrianglesAdjacency => vec!["InputTrianglesAdjacency".to_string()],
  ExecutionMode::Quads => vec!["Quads".to_string()],
  ExecutionMode::Isolines => vec!["Isolines".to_string()],
  ExecutionMode::OutputVerticies(ref a0) => { let mut v = vec!["OutputVerticies".to_string()];
    v.push(a0.to_string());
    v }
  ExecutionMode::OutputPoints => vec!["OutputPoints".to_string()],
  ExecutionMode::OutputLineStrip => vec!["OutputLineStrip".to_string()],
  ExecutionMode::OutputTriangleStrip => vec!["OutputTriangleStrip".to_string()],
  ExecutionMode::VecTypeHint(ref a0) => { let mut v = vec!["VecTypeHint".to_string()];
    v.push(a0.0.to_string());
    v }
  ExecutionMode::ContractionOff => vec!["ContractionOff".to_string()],
  _ => vec!["?".to_string()] } }
pub fn b_ExecutionMode(s: &[String]) -> ExecutionMode { match s[0].as_str() {
  "Invocations" => ExecutionMode::Invocations(num(&s[1])),
  "SpacingEqual" => ExecutionMode::SpacingEqual,
  "SpacingFractionalEven" => ExecutionMode::SpacingFractionalEven,
  "SpacingFractionalOdd" => ExecutionMode::SpacingFractionalOdd,
  "VertexOrderCw" => ExecutionMode::VertexOrderCw,
  "VertexOrderCcw" => ExecutionMode::VertexOrderCcw,
  "PixelCenterInteger" => ExecutionMode::PixelCenterInteger,
  "OriginUpperLeft" => ExecutionMode::OriginUpperLeft,
  "OriginLowerLeft" => ExecutionMode::OriginLowerLeft,
  "EarlyFragmentTests" => ExecutionMode::EarlyFragmentTests,
  "PointMode" => ExecutionMode::PointMode,
  "Xfb" => ExecutionMode::Xfb,
  "DepthReplacing" => ExecutionMode::DepthReplacing,
  "DepthGreater" => ExecutionMode::DepthGreater,
  "DepthLess" => ExecutionMode::DepthLess,
  "DepthUnchanged" => ExecutionMode::DepthUnchanged,
  "LocalSize" => ExecutionMode::LocalSize(num(&s[1]), num(&s[2]), num(&s[3])),
  "LocalSizeHint" => ExecutionMode::LocalSizeHint(num(&s[1]), num(&s[2]), num(&s[3])),
  "InputPoints" => ExecutionMode::InputPoints,
  "InputLines" => ExecutionMode::InputLines,
  "InputLinesAdjacency" => ExecutionMode::InputLinesAdjacency,
  "Triangles" => ExecutionMode::Triangles,
  "InputTrianglesAdjacency" => ExecutionMode::InputTrianglesAdjacency,
  "Quads" => ExecutionMode::Quads,
  "Isolines" => ExecutionMode::Isolines,
  "OutputVerticies" => ExecutionMode::OutputVerticies(num(&s[1])),
  "OutputPoints" => ExecutionMode::OutputPoints,
  "OutputLineStrip" => ExecutionMode::OutputLineStrip,
  "OutputTriangleStrip" => ExecutionMode::OutputTriangleStrip,
  "VecTypeHint" => ExecutionMode::VecTypeHint(OpId(num(&s[1]))),
  "ContractionOff" => ExecutionMode::ContractionOff,
  _ => panic!("HARNESS bad enumerant {}", s[0]) } }
pub fn p_Decoration(x: &Decoration) -> Vec<String> { match *x {
  Decoration::RelaxedPrecision => vec!["RelaxedPrecision".to_string()],
  Decoration::SpecId(ref a0) => { let mut v = vec!["SpecId".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Block => vec!["Block".to_string()],
  Decoration::BufferBlock => vec!["BufferBlock".to_string()],
  Decoration::RowMajor => vec!["RowMajor".to_string()],
  Decoration::ColMajor => vec!["ColMajor".to_string()],
  Decoration::ArrayStride(ref a0) => { let mut v = vec!["ArrayStride".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::MatrixStride(ref a0) => { let mut v = vec!["MatrixStride".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::GlslShared => vec!["GlslShared".to_string()],
  Decoration::GlslPacked => vec!["GlslPacked".to_string()],
  Decoration::CPacked => vec!["CPacked".to_string()],
  Decoration::BuiltIn(ref a0) => { let mut v = vec!["BuiltIn".to_string()];
    v.push(p_BuiltIn(a0));
    v }
  Decoration::NoPerspective => vec!["NoPerspective".to_string()],
  Decoration::Flat => vec!["Flat".to_string()],
  Decoration::Patch => vec!["Patch".to_string()],
  Decoration::Centroid => vec!["Centroid".to_string()],
  Decoration::Sample => vec!["Sample".to_string()],
  Decoration::Invariant => vec!["Invariant".to_string()],
  Decoration::Restrict => vec!["Restrict".to_string()],
  Decoration::Aliased => vec!["Aliased".to_string()],
  Decoration::Volatile => vec!["Volatile".to_string()],
  Decoration::Constant => vec!["Constant".to_string()],
  Decoration::Coherent => vec!["Coherent".to_string()],
  Decoration::NonWritable => vec!["NonWritable".to_string()],
  Decoration::NonReadable => vec!["NonReadable".to_string()],
  Decoration::Uniform => vec!["Uniform".to_string()],
  Decoration::SaturatedConversion => vec!["SaturatedConversion".to_string()],
  Decoration::Stream(ref a0) => { let mut v = vec!["Stream".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Location(ref a0) => { let mut v = vec!["Location".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Component(ref a0) => { let mut v = vec!["Component".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Index(ref a0) => { let mut v = vec!["Index".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Binding(ref a0) => { let mut v = vec!["Binding".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::DescriptorSet(ref a0) => { let mut v = vec!["DescriptorSet".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Offset(ref a0) => { let mut v = vec!["Offset".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::XfbBuffer(ref a0) => { let mut v = vec!["XfbBuffer".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::XfbStride(ref a0) => { let mut v = vec!["XfbStride".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::FuncParamAttr(ref a0) => { let mut v = vec!["FuncParamAttr".to_string()];
    v.push(p_FunctionParameterAttribute(a0));
    v }
  Decoration::FpRoundingMode(ref a0) => { let mut v = vec!["FpRoundingMode".to_string()];
    v.push(p_FpRoundingMode(a0));
    v }
  Decoration::FpFastMathMode(ref a0) => { let mut v = vec!["FpFastMathMode".to_string()];
    v.extend(p_FpFastMathMode(a0));
    v }
  Decoration::LinkageAttributes(ref a0, ref a1) => { let mut v = vec!["LinkageAttributes".to_string()];
    v.push(p_LinkageType(a1));
    v.extend(hex(a0));
    v }
  Decoration::NoContraction => vec!["NoContraction".to_string()],
  Decoration::InputAttachmentIndex(ref a0) => { let mut v = vec!["InputAttachmentIndex".to_string()];
    v.push(a0.to_string());
    v }
  Decoration::Alignment(ref a0) => { let mut v = vec!["Alignment".to_string()];
    v.push(a0.to_string());
    v }
  _ => vec!["?".to_string()] } }
pub fn b_Decoration(s: &[String]) -> Decoration { match s[0].as_str() {
  "RelaxedPrecision" => Decoration::RelaxedPrecision,
  "SpecId" => Decoration::SpecId(num(&s[1])),
  "Block" => Decoration::Block,
  "BufferBlock" => Decoration::BufferBlock,
  "RowMajor" => Decoration::RowMajor,
  "ColMajor" => Decoration::ColMajor,
  "ArrayStride" => Decoration::ArrayStride(num(&s[1])),
  "MatrixStride" => Decoration::MatrixStride(num(&s[1])),
  "GlslShared" => Decoration::GlslShared,
  "GlslPacked" => Decoration::GlslPacked,
  "CPacked" => Decoration::CPacked,
  "BuiltIn" => Decoration::BuiltIn(b_BuiltIn(&s[1])),
  "NoPerspective" => Decoration::NoPerspective,
  "Flat" => Decoration::Flat,
  "Patch" => Decoration::Patch,
  "Centroid" => Decoration::Centroid,
  "Sample" => Decoration::Sample,
  "Invariant" => Decoration::Invariant,
  "Restrict" => Decoration::Restrict,
  "Aliased" => Decoration::Aliased,
  "Volatile" => Decoration::Volatile,
  "Constant" => Decoration::Constant,
  "Coherent" => Decoration::Coherent,
  "NonWritable" => Decoration::NonWritable,
  "NonReadable" => Decoration::NonReadable,
  "Uniform" => Decoration::Uniform,
  "SaturatedConversion" => Decoration::SaturatedConversion,
  "Stream" => Decoration::Stream(num(&s[1])),
  "Location" => Decoration::Location(num(&s[1])),
  "Component" => Decoration::Component(num(&s[1])),
  "Index" => Decoration::Index(num(&s[1])),
  "Binding" => Decoration::Binding(num(&s[1])),
  "DescriptorSet" => Decoration::DescriptorSet(num(&s[1])),
  "Offset" => Decoration::Offset(num(&s[1])),
  "XfbBuffer" => Decoration::XfbBuffer(num(&s[1])),
  "XfbStride" => Decoration::XfbStride(num(&s[1])),
  "FuncParamAttr" => Decoration::FuncParamAttr(b_FunctionParameterAttribute(&s[1])),
  "FpRoundingMode" => Decoration::FpRoundingMode(b_FpRoundingMode(&s[1])),
  "FpFastMathMode" => Decoration::FpFastMathMode(b_FpFastMathMode(&s[1..])),
  "LinkageAttributes" => Decoration::LinkageAttributes(unhex(&s[2..]), b_LinkageType(&s[1])),
  "NoContraction" => Decoration::NoContraction,
  "InputAttachmentIndex" => Decoration::InputAttachmentIndex(num(&s[1])),
  "Alignment" => Decoration::Alignment(num(&s[1])),
  _ => panic!("HARNESS bad enumerant {}", s[0]) } }
pub fn proj(c: &Core) -> Inst { match *c {
  Core::OpNop(ref x) => p_OpNop(x),
  Core::OpUndef(ref x) => p_OpUndef(x),
  Core::OpSourceContinued(ref x) => p_OpSourceContinued(x),
  Core::OpSource(ref x) => p_OpSource(x),
  Core::OpSourceExtension(ref x) => p_OpSourceExtension(x),
  Core::OpName(ref x) => p_OpName(x),
  Core::OpMemberName(ref x) => p_OpMemberName(x),
  Core::OpString(ref x) => p_OpString(x),
  Core::OpExtension(ref x) => p_OpExtension(x),
  Core::OpExtInstImport(ref x) => p_OpExtInstImport(x),
  Core::OpExtInst(ref x) => p_OpExtInst(x),
  Core::OpMemoryModel(ref x) => p_OpMemoryModel(x),
  Core::OpEntryPoint(ref x) => p_OpEntryPoint(x),
  Core::OpExecutionMode(ref x) => p_OpExecutionMode(x),
  Core::OpCapability(ref x) => p_OpCapability(x),
  Core::OpTypeVoid(ref x) => p_OpTypeVoid(x),
  Core::OpTypeBool(ref x) => p_OpTypeBool(x),
  Core::OpTypeInt(ref x) => p_OpTypeInt(x),
  Core::OpTypeFloat(ref x) => p_OpTypeFloat(x),
  Core::OpTypeVector(ref x) => p_OpTypeVector(x),
  Core::OpTypeMatrix(ref x) => p_OpTypeMatrix(x),
  Core::OpTypeImage(ref x) => p_OpTypeImage(x),
  Core::OpTypeSampler(ref x) => p_OpTypeSampler(x),
  Core::OpTypeSampledImage(ref x) => p_OpTypeSampledImage(x),
  Core::OpTypeArray(ref x) => p_OpTypeArray(x),
  Core::OpTypeRuntimeArray(ref x) => p_OpTypeRuntimeArray(x),
  Core::OpTypeStruct(ref x) => p_OpTypeStruct(x),
  Core::OpTypeOpaque(ref x) => p_OpTypeOpaque(x),
  Core::OpTypePointer(ref x) => p_OpTypePointer(x),
  Core::OpTypeFunction(ref x) => p_OpTypeFunction(x),
  Core::OpTypeEvent(ref x) => p_OpTypeEvent(x),
  Core::OpTypeDeviceEvent(ref x) => p_OpTypeDeviceEvent(x),
  Core::OpTypeQueue(ref x) => p_OpTypeQueue(x),
  Core::OpTypePipe(ref x) => p_OpTypePipe(x),
  Core::OpTypeForwardPointer(ref x) => p_OpTypeForwardPointer(x),
  Core::OpConstant(ref x) => p_OpConstant(x),
  Core::OpConstantComposite(ref x) => p_OpConstantComposite(x),
  Core::OpFunction(ref x) => p_OpFunction(x),
  Core::OpFunctionParameter(ref x) => p_OpFunctionParameter(x),
  Core::OpFunctionEnd(ref x) => p_OpFunctionEnd(x),
  Core::OpVariable(ref x) => p_OpVariable(x),
  Core::OpLoad(ref x) => p_OpLoad(x),
  Core::OpStore(ref x) => p_OpStore(x),
  Core::OpAccessChain(ref x) => p_OpAccessChain(x),
  Core::OpDecorate(ref x) => p_OpDecorate(x),
  Core::OpMemberDecorate(ref x) => p_OpMemberDecorate(x),
  Core::OpConvertUToF(ref x) => p_OpConvertUToF(x),
  Core::OpBitcast(ref x) => p_OpBitcast(x),
  Core::OpIAdd(ref x) => p_OpIAdd(x),
  Core::OpFAdd(ref x) => p_OpFAdd(x),
  Core::OpISub(ref x) => p_OpISub(x),
  Core::OpFSub(ref x) => p_OpFSub(x),
  Core::OpIMul(ref x) => p_OpIMul(x),
  Core::OpFMul(ref x) => p_OpFMul(x),
  Core::OpUDiv(ref x) => p_OpUDiv(x),
  Core::OpSDiv(ref x) => p_OpSDiv(x),
  Core::OpFDiv(ref x) => p_OpFDiv(x),
  Core::OpUMod(ref x) => p_OpUMod(x),
  Core::OpSRem(ref x) => p_OpSRem(x),
  Core::OpSMod(ref x) => p_OpSMod(x),
  Core::OpFRem(ref x) => p_OpFRem(x),
  Core::OpFMod(ref x) => p_OpFMod(x),
  Core::OpIAddCarry(ref x) => p_OpIAddCarry(x),
  Core::OpISubBorrow(ref x) => p_OpISubBorrow(x),
  Core::OpUMulExtended(ref x) => p_OpUMulExtended(x),
  Core::OpSMulExtended(ref x) => p_OpSMulExtended(x),
  Core::OpBitwiseOr(ref x) => p_OpBitwiseOr(x),
  Core::OpBitwiseXor(ref x) => p_OpBitwiseXor(x),
  Core::OpBitwiseAnd(ref x) => p_OpBitwiseAnd(x),
  Core::OpIEqual(ref x) => p_OpIEqual(x),
  Core::OpINotEqual(ref x) => p_OpINotEqual(x),
  Core::OpUGreaterThan(ref x) => p_OpUGreaterThan(x),
  Core::OpSGreaterThan(ref x) => p_OpSGreaterThan(x),
  Core::OpUGreaterThanEqual(ref x) => p_OpUGreaterThanEqual(x),
  Core::OpSGreaterThanEqual(ref x) => p_OpSGreaterThanEqual(x),
  Core::OpULessThan(ref x) => p_OpULessThan(x),
  Core::OpSLessThan(ref x) => p_OpSLessThan(x),
  Core::OpULessThanEqual(ref x) => p_OpULessThanEqual(x),
  Core::OpSLessThanEqual(ref x) => p_OpSLessThanEqual(x),
  Core::OpFOrdEqual(ref x) => p_OpFOrdEqual(x),
  Core::OpFUnordEqual(ref x) => p_OpFUnordEqual(x),
  Core::OpFOrdNotEqual(ref x) => p_OpFOrdNotEqual(x),
  Core::OpFUnordNotEqual(ref x) => p_OpFUnordNotEqual(x),
  Core::OpFOrdLessThan(ref x) => p_OpFOrdLessThan(x),
  Core::OpFUnordLessThan(ref x) => p_OpFUnordLessThan(x),
  Core::OpFOrdGreaterThan(ref x) => p_OpFOrdGreaterThan(x),
  Core::OpFUnordGreaterThan(ref x) => p_OpFUnordGreaterThan(x),
  Core::OpFOrdLessThanEqual(ref x) => p_OpFOrdLessThanEqual(x),
  Core::OpFUnordLessThanEqual(ref x) => p_OpFUnordLessThanEqual(x),
  Core::OpFOrdGreaterThanEqual(ref x) => p_OpFOrdGreaterThanEqual(x),
  Core::OpFUnordGreaterThanEqual(ref x) => p_OpFUnordGreaterThanEqual(x),
  Core::OpPhi(ref x) => p_OpPhi(x),
  Core::OpLoopMerge(ref x) => p_OpLoopMerge(x),
  Core::OpSelectionMerge(ref x) => p_OpSelectionMerge(x),
  Core::OpLabel(ref x) => p_OpLabel(x),
  Core::OpBranch(ref x) => p_OpBranch(x),
  Core::OpBranchConditional(ref x) => p_OpBranchConditional(x),
  Core::OpReturn(ref x) => p_OpReturn(x),
  _ => vec![vec!["?".to_string()]] } }
pub fn p_OpNop(x: &OpNop) -> Inst { vec![vec!["OpNop".to_string()], ] }
pub fn p_OpUndef(x: &OpUndef) -> Inst { vec![vec!["OpUndef".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpSourceContinued(x: &OpSourceContinued) -> Inst { vec![vec!["OpSourceContinued".to_string()], hex(&x.continued_source)] }
pub fn p_OpSource(x: &OpSource) -> Inst { vec![vec!["OpSource".to_string()], p_srclang(&x.language), vec![x.version.0.to_string()], x.file.iter().map(|x| x.0.to_string()).collect(), optstr(&x.source)] }
pub fn p_OpSourceExtension(x: &OpSourceExtension) -> Inst { vec![vec!["OpSourceExtension".to_string()], hex(&x.extension)] }
pub fn p_OpName(x: &OpName) -> Inst { vec![vec!["OpName".to_string()], vec![x.target.0.to_string()], hex(&x.name)] }
pub fn p_OpMemberName(x: &OpMemberName) -> Inst { vec![vec!["OpMemberName".to_string()], vec![x.struct_type.0.to_string()], vec![x.member.0.to_string()], hex(&x.name)] }
pub fn p_OpString(x: &OpString) -> Inst { vec![vec!["OpString".to_string()], vec![x.result_id.0.to_string()], hex(&x.string)] }
pub fn p_OpExtension(x: &OpExtension) -> Inst { vec![vec!["OpExtension".to_string()], hex(&x.name)] }
pub fn p_OpExtInstImport(x: &OpExtInstImport) -> Inst { vec![vec!["OpExtInstImport".to_string()], vec![x.result_id.0.to_string()], hex(&x.name)] }
pub fn p_OpExtInst(x: &OpExtInst) -> Inst { vec![vec!["OpExtInst".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.set.0.to_string()], p_ext(&x.instruction)] }
pub fn p_OpMemoryModel(x: &OpMemoryModel) -> Inst { vec![vec!["OpMemoryModel".to_string()], vec![p_AddressingModel(&x.addressing_model)], vec![p_MemoryModel(&x.memory_model)]] }
pub fn p_OpEntryPoint(x: &OpEntryPoint) -> Inst { vec![vec!["OpEntryPoint".to_string()], vec![p_ExecutionModel(&x.execution_model)], vec![x.entry_point.0.to_string()], hex(&x.name), x.interface.iter().map(|x| x.0.to_string()).collect()] }
pub fn p_OpExecutionMode(x: &OpExecutionMode) -> Inst { vec![vec!["OpExecutionMode".to_string()], vec![x.entry_point.0.to_string()], p_ExecutionMode(&x.mode)] }
pub fn p_OpCapability(x: &OpCapability) -> Inst { vec![vec!["OpCapability".to_string()], vec![p_Capability(&x.capability)]] }
pub fn p_OpTypeVoid(x: &OpTypeVoid) -> Inst { vec![vec!["OpTypeVoid".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpTypeBool(x: &OpTypeBool) -> Inst { vec![vec!["OpTypeBool".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpTypeInt(x: &OpTypeInt) -> Inst { vec![vec!["OpTypeInt".to_string()], vec![x.result_id.0.to_string()], vec![x.width.to_string()], vec![p_Signedness(&x.signedness)]] }
pub fn p_OpTypeFloat(x: &OpTypeFloat) -> Inst { vec![vec!["OpTypeFloat".to_string()], vec![x.result_id.0.to_string()], vec![x.width.to_string()]] }
pub fn p_OpTypeVector(x: &OpTypeVector) -> Inst { vec![vec!["OpTypeVector".to_string()], vec![x.result_id.0.to_string()], vec![x.component_type.0.to_string()], vec![x.component_count.to_string()]] }
pub fn p_OpTypeMatrix(x: &OpTypeMatrix) -> Inst { vec![vec!["OpTypeMatrix".to_string()], vec![x.result_id.0.to_string()], vec![x.column_type.0.to_string()], vec![x.column_count.to_string()]] }
pub fn p_OpTypeImage(x: &OpTypeImage) -> Inst { vec![vec!["OpTypeImage".to_string()], vec![x.result_id.0.to_string()], vec![x.sampled_type.0.to_string()], vec![p_Dim(&x.dim)], vec![p_DepthStatus(&x.depth)], vec![p_Arrayed(&x.arrayed)], vec![p_MS(&x.ms)], vec![p_SampledStatus(&x.sampled)], vec![p_ImageFormat(&x.format)], x.access_qualifier.iter().map(|x| p_AccessQualifier(x)).collect()] }
pub fn p_OpTypeSampler(x: &OpTypeSampler) -> Inst { vec![vec!["OpTypeSampler".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpTypeSampledImage(x: &OpTypeSampledImage) -> Inst { vec![vec!["OpTypeSampledImage".to_string()], vec![x.result_id.0.to_string()], vec![x.image_type.0.to_string()]] }
pub fn p_OpTypeArray(x: &OpTypeArray) -> Inst { vec![vec!["OpTypeArray".to_string()], vec![x.result_id.0.to_string()], vec![x.element_type.0.to_string()], vec![x.length.0.to_string()]] }
pub fn p_OpTypeRuntimeArray(x: &OpTypeRuntimeArray) -> Inst { vec![vec!["OpTypeRuntimeArray".to_string()], vec![x.result_id.0.to_string()], vec![x.element_type.0.to_string()]] }
pub fn p_OpTypeStruct(x: &OpTypeStruct) -> Inst { vec![vec!["OpTypeStruct".to_string()], vec![x.result_id.0.to_string()], x.member_types.iter().map(|x| x.0.to_string()).collect()] }
pub fn p_OpTypeOpaque(x: &OpTypeOpaque) -> Inst { vec![vec!["OpTypeOpaque".to_string()], vec![x.result_id.0.to_string()], hex(&x.name)] }
pub fn p_OpTypePointer(x: &OpTypePointer) -> Inst { vec![vec!["OpTypePointer".to_string()], vec![x.result_id.0.to_string()], vec![p_StorageClass(&x.storage_class)], vec![x.pointed_type.0.to_string()]] }
pub fn p_OpTypeFunction(x: &OpTypeFunction) -> Inst { vec![vec!["OpTypeFunction".to_string()], vec![x.result_id.0.to_string()], vec![x.return_type.0.to_string()], x.parameter_types.iter().map(|x| x.0.to_string()).collect()] }
pub fn p_OpTypeEvent(x: &OpTypeEvent) -> Inst { vec![vec!["OpTypeEvent".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpTypeDeviceEvent(x: &OpTypeDeviceEvent) -> Inst { vec![vec!["OpTypeDeviceEvent".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpTypeQueue(x: &OpTypeQueue) -> Inst { vec![vec!["OpTypeQueue".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpTypePipe(x: &OpTypePipe) -> Inst { vec![vec!["OpTypePipe".to_string()], vec![x.result_id.0.to_string()], vec![p_AccessQualifier(&x.access_qualifier)]] }
pub fn p_OpTypeForwardPointer(x: &OpTypeForwardPointer) -> Inst { vec![vec!["OpTypeForwardPointer".to_string()], vec![x.pointer_type.0.to_string()], vec![p_StorageClass(&x.storage_class)]] }
pub fn p_OpConstant(x: &OpConstant) -> Inst { vec![vec!["OpConstant".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], x.value.iter().map(|x| x.to_string()).collect()] }
pub fn p_OpConstantComposite(x: &OpConstantComposite) -> Inst { vec![vec!["OpConstantComposite".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], x.constituents.iter().map(|x| x.0.to_string()).collect()] }
pub fn p_OpFunction(x: &OpFunction) -> Inst { vec![vec!["OpFunction".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], p_FunctionControl(&x.function_control), vec![x.function_type.0.to_string()]] }
pub fn p_OpFunctionParameter(x: &OpFunctionParameter) -> Inst { vec![vec!["OpFunctionParameter".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpFunctionEnd(x: &OpFunctionEnd) -> Inst { vec![vec!["OpFunctionEnd".to_string()], ] }
pub fn p_OpVariable(x: &OpVariable) -> Inst { vec![vec!["OpVariable".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![p_StorageClass(&x.storage_class)], x.initializer.iter().map(|x| x.0.to_string()).collect()] }
pub fn p_OpLoad(x: &OpLoad) -> Inst { vec![vec!["OpLoad".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.pointer.0.to_string()], p_optmask(x.memory_access.as_ref().map(|x| p_MemoryAccess(x)))] }
pub fn p_OpStore(x: &OpStore) -> Inst { vec![vec!["OpStore".to_string()], vec![x.pointer.0.to_string()], vec![x.object.0.to_string()], p_optmask(x.memory_access.as_ref().map(|x| p_MemoryAccess(x)))] }
pub fn p_OpAccessChain(x: &OpAccessChain) -> Inst { vec![vec!["OpAccessChain".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], x.indexes.iter().map(|x| x.0.to_string()).collect()] }
pub fn p_OpDecorate(x: &OpDecorate) -> Inst { vec![vec!["OpDecorate".to_string()], vec![x.target.0.to_string()], p_Decoration(&x.decoration)] }
pub fn p_OpMemberDecorate(x: &OpMemberDecorate) -> Inst { vec![vec!["OpMemberDecorate".to_string()], vec![x.structure_type.0.to_string()], vec![x.member.0.to_string()], p_Decoration(&x.decoration)] }
pub fn p_OpConvertUToF(x: &OpConvertUToF) -> Inst { vec![vec!["OpConvertUToF".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.unsigned_value.0.to_string()]] }
pub fn p_OpBitcast(x: &OpBitcast) -> Inst { vec![vec!["OpBitcast".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand.0.to_string()]] }
pub fn p_OpIAdd(x: &OpIAdd) -> Inst { vec![vec!["OpIAdd".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFAdd(x: &OpFAdd) -> Inst { vec![vec!["OpFAdd".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpISub(x: &OpISub) -> Inst { vec![vec!["OpISub".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFSub(x: &OpFSub) -> Inst { vec![vec!["OpFSub".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpIMul(x: &OpIMul) -> Inst { vec![vec!["OpIMul".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFMul(x: &OpFMul) -> Inst { vec![vec!["OpFMul".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpUDiv(x: &OpUDiv) -> Inst { vec![vec!["OpUDiv".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSDiv(x: &OpSDiv) -> Inst { vec![vec!["OpSDiv".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFDiv(x: &OpFDiv) -> Inst { vec![vec!["OpFDiv".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpUMod(x: &OpUMod) -> Inst { vec![vec!["OpUMod".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSRem(x: &OpSRem) -> Inst { vec![vec!["OpSRem".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSMod(x: &OpSMod) -> Inst { vec![vec!["OpSMod".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFRem(x: &OpFRem) -> Inst { vec![vec!["OpFRem".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFMod(x: &OpFMod) -> Inst { vec![vec!["OpFMod".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpIAddCarry(x: &OpIAddCarry) -> Inst { vec![vec!["OpIAddCarry".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpISubBorrow(x: &OpISubBorrow) -> Inst { vec![vec!["OpISubBorrow".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpUMulExtended(x: &OpUMulExtended) -> Inst { vec![vec!["OpUMulExtended".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSMulExtended(x: &OpSMulExtended) -> Inst { vec![vec!["OpSMulExtended".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpBitwiseOr(x: &OpBitwiseOr) -> Inst { vec![vec!["OpBitwiseOr".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpBitwiseXor(x: &OpBitwiseXor) -> Inst { vec![vec!["OpBitwiseXor".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpBitwiseAnd(x: &OpBitwiseAnd) -> Inst { vec![vec!["OpBitwiseAnd".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpIEqual(x: &OpIEqual) -> Inst { vec![vec!["OpIEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpINotEqual(x: &OpINotEqual) -> Inst { vec![vec!["OpINotEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpUGreaterThan(x: &OpUGreaterThan) -> Inst { vec![vec!["OpUGreaterThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSGreaterThan(x: &OpSGreaterThan) -> Inst { vec![vec!["OpSGreaterThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpUGreaterThanEqual(x: &OpUGreaterThanEqual) -> Inst { vec![vec!["OpUGreaterThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSGreaterThanEqual(x: &OpSGreaterThanEqual) -> Inst { vec![vec!["OpSGreaterThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpULessThan(x: &OpULessThan) -> Inst { vec![vec!["OpULessThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSLessThan(x: &OpSLessThan) -> Inst { vec![vec!["OpSLessThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpULessThanEqual(x: &OpULessThanEqual) -> Inst { vec![vec!["OpULessThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpSLessThanEqual(x: &OpSLessThanEqual) -> Inst { vec![vec!["OpSLessThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFOrdEqual(x: &OpFOrdEqual) -> Inst { vec![vec!["OpFOrdEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFUnordEqual(x: &OpFUnordEqual) -> Inst { vec![vec!["OpFUnordEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFOrdNotEqual(x: &OpFOrdNotEqual) -> Inst { vec![vec!["OpFOrdNotEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFUnordNotEqual(x: &OpFUnordNotEqual) -> Inst { vec![vec!["OpFUnordNotEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFOrdLessThan(x: &OpFOrdLessThan) -> Inst { vec![vec!["OpFOrdLessThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFUnordLessThan(x: &OpFUnordLessThan) -> Inst { vec![vec!["OpFUnordLessThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFOrdGreaterThan(x: &OpFOrdGreaterThan) -> Inst { vec![vec!["OpFOrdGreaterThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFUnordGreaterThan(x: &OpFUnordGreaterThan) -> Inst { vec![vec!["OpFUnordGreaterThan".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFOrdLessThanEqual(x: &OpFOrdLessThanEqual) -> Inst { vec![vec!["OpFOrdLessThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFUnordLessThanEqual(x: &OpFUnordLessThanEqual) -> Inst { vec![vec!["OpFUnordLessThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFOrdGreaterThanEqual(x: &OpFOrdGreaterThanEqual) -> Inst { vec![vec!["OpFOrdGreaterThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpFUnordGreaterThanEqual(x: &OpFUnordGreaterThanEqual) -> Inst { vec![vec!["OpFUnordGreaterThanEqual".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()]] }
pub fn p_OpPhi(x: &OpPhi) -> Inst { vec![vec!["OpPhi".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], p_phi(&x.variables)] }
pub fn p_OpLoopMerge(x: &OpLoopMerge) -> Inst { vec![vec!["OpLoopMerge".to_string()], vec![x.merge_block.0.to_string()], vec![x.continue_target.0.to_string()], p_LoopControl(&x.loop_control)] }
pub fn p_OpSelectionMerge(x: &OpSelectionMerge) -> Inst { vec![vec!["OpSelectionMerge".to_string()], vec![x.merge_block.0.to_string()], p_SelectionControl(&x.selection_control)] }
pub fn p_OpLabel(x: &OpLabel) -> Inst { vec![vec!["OpLabel".to_string()], vec![x.result_id.0.to_string()]] }
pub fn p_OpBranch(x: &OpBranch) -> Inst { vec![vec!["OpBranch".to_string()], vec![x.target_label.0.to_string()]] }
pub fn p_OpBranchConditional(x: &OpBranchConditional) -> Inst { vec![vec!["OpBranchConditional".to_string()], vec![x.condition.0.to_string()], vec![x.true_label.0.to_string()], vec![x.false_label.0.to_string()], p_weights(&x.weights)] }
pub fn p_OpReturn(x: &OpReturn) -> Inst { vec![vec!["OpReturn".to_string()], ] }
pub fn build(i: &Inst) -> Core { match i[0][0].as_str() {
  "OpNop" => Core::OpNop(OpNop),
  "OpUndef" => Core::OpUndef(OpUndef { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])) }),
  "OpSourceContinued" => Core::OpSourceContinued(OpSourceContinued { continued_source: unhex(&i[1]) }),
  "OpSource" => Core::OpSource(OpSource { language: b_srclang(&i[1]), version: SourceVersion(num(&i[2][0])), file: i[3].first().map(|x| OpId(num(x))), source: b_optstr(&i[4]) }),
  "OpSourceExtension" => Core::OpSourceExtension(OpSourceExtension { extension: unhex(&i[1]) }),
  "OpName" => Core::OpName(OpName { target: OpId(num(&i[1][0])), name: unhex(&i[2]) }),
  "OpMemberName" => Core::OpMemberName(OpMemberName { struct_type: OpId(num(&i[1][0])), member: MemberIndex(num(&i[2][0])), name: unhex(&i[3]) }),
  "OpString" => Core::OpString(OpString { result_id: ResultId(num(&i[1][0])), string: unhex(&i[2]) }),
  "OpExtension" => Core::OpExtension(OpExtension { name: unhex(&i[1]) }),
  "OpExtInstImport" => Core::OpExtInstImport(OpExtInstImport { result_id: ResultId(num(&i[1][0])), name: unhex(&i[2]) }),
  "OpExtInst" => build_ext(i),
  "OpMemoryModel" => Core::OpMemoryModel(OpMemoryModel { addressing_model: b_AddressingModel(&i[1][0]), memory_model: b_MemoryModel(&i[2][0]) }),
  "OpEntryPoint" => Core::OpEntryPoint(OpEntryPoint { execution_model: b_ExecutionModel(&i[1][0]), entry_point: OpId(num(&i[2][0])), name: unhex(&i[3]), interface: i[4].iter().map(|x| OpId(num(x))).collect() }),
  "OpExecutionMode" => Core::OpExecutionMode(OpExecutionMode { entry_point: OpId(num(&i[1][0])), mode: b_ExecutionMode(&i[2]) }),
  "OpCapability" => Core::OpCapability(OpCapability { capability: b_Capability(&i[1][0]) }),
  "OpTypeVoid" => Core::OpTypeVoid(OpTypeVoid { result_id: ResultId(num(&i[1][0])) }),
  "OpTypeBool" => Core::OpTypeBool(OpTypeBool { result_id: ResultId(num(&i[1][0])) }),
  "OpTypeInt" => Core::OpTypeInt(OpTypeInt { result_id: ResultId(num(&i[1][0])), width: num(&i[2][0]), signedness: b_Signedness(&i[3][0]) }),
  "OpTypeFloat" => Core::OpTypeFloat(OpTypeFloat { result_id: ResultId(num(&i[1][0])), width: num(&i[2][0]) }),
  "OpTypeVector" => Core::OpTypeVector(OpTypeVector { result_id: ResultId(num(&i[1][0])), component_type: OpId(num(&i[2][0])), component_count: num(&i[3][0]) }),
  "OpTypeMatrix" => Core::OpTypeMatrix(OpTypeMatrix { result_id: ResultId(num(&i[1][0])), column_type: OpId(num(&i[2][0])), column_count: num(&i[3][0]) }),
  "OpTypeImage" => Core::OpTypeImage(OpTypeImage { result_id: ResultId(num(&i[1][0])), sampled_type: OpId(num(&i[2][0])), dim: b_Dim(&i[3][0]), depth: b_DepthStatus(&i[4][0]), arrayed: b_Arrayed(&i[5][0]), ms: b_MS(&i[6][0]), sampled: b_SampledStatus(&i[7][0]), format: b_ImageFormat(&i[8][0]), access_qualifier: i[9].first().map(|x| b_AccessQualifier(x)) }),
  "OpTypeSampler" => Core::OpTypeSampler(OpTypeSampler { result_id: ResultId(num(&i[1][0])) }),
  "OpTypeSampledImage" => Core::OpTypeSampledImage(OpTypeSampledImage { result_id: ResultId(num(&i[1][0])), image_type: OpId(num(&i[2][0])) }),
  "OpTypeArray" => Core::OpTypeArray(OpTypeArray { result_id: ResultId(num(&i[1][0])), element_type: OpId(num(&i[2][0])), length: OpId(num(&i[3][0])) }),
  "OpTypeRuntimeArray" => Core::OpTypeRuntimeArray(OpTypeRuntimeArray { result_id: ResultId(num(&i[1][0])), element_type: OpId(num(&i[2][0])) }),
  "OpTypeStruct" => Core::OpTypeStruct(OpTypeStruct { result_id: ResultId(num(&i[1][0])), member_types: i[2].iter().map(|x| OpId(num(x))).collect() }),
  "OpTypeOpaque" => Core::OpTypeOpaque(OpTypeOpaque { result_id: ResultId(num(&i[1][0])), name: unhex(&i[2]) }),
  "OpTypePointer" => Core::OpTypePointer(OpTypePointer { result_id: ResultId(num(&i[1][0])), storage_class: b_StorageClass(&i[2][0]), pointed_type: OpId(num(&i[3][0])) }),
  "OpTypeFunction" => Core::OpTypeFunction(OpTypeFunction { result_id: ResultId(num(&i[1][0])), return_type: OpId(num(&i[2][0])), parameter_types: i[3].iter().map(|x| OpId(num(x))).collect() }),
  "OpTypeEvent" => Core::OpTypeEvent(OpTypeEvent { result_id: ResultId(num(&i[1][0])) }),
  "OpTypeDeviceEvent" => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: ResultId(num(&i[1][0])) }),
  "OpTypeQueue" => Core::OpTypeQueue(OpTypeQueue { result_id: ResultId(num(&i[1][0])) }),
  "OpTypePipe" => Core::OpTypePipe(OpTypePipe { result_id: ResultId(num(&i[1][0])), access_qualifier: b_AccessQualifier(&i[2][0]) }),
  "OpTypeForwardPointer" => Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: OpId(num(&i[1][0])), storage_class: b_StorageClass(&i[2][0]) }),
  "OpConstant" => Core::OpConstant(OpConstant { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), value: i[3].iter().map(|x| num(x)).collect() }),
  "OpConstantComposite" => Core::OpConstantComposite(OpConstantComposite { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), constituents: i[3].iter().map(|x| OpId(num(x))).collect() }),
  "OpFunction" => Core::OpFunction(OpFunction { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), function_control: b_FunctionControl(&i[3]), function_type: OpId(num(&i[4][0])) }),
  "OpFunctionParameter" => Core::OpFunctionParameter(OpFunctionParameter { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])) }),
  "OpFunctionEnd" => Core::OpFunctionEnd(OpFunctionEnd),
  "OpVariable" => Core::OpVariable(OpVariable { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), storage_class: b_StorageClass(&i[3][0]), initializer: i[4].first().map(|x| OpId(num(x))) }),
  "OpLoad" => Core::OpLoad(OpLoad { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), pointer: OpId(num(&i[3][0])), memory_access: { let z = &i[4]; if z.is_empty() { None } else { Some(b_MemoryAccess(&z[1..])) } } }),
  "OpStore" => Core::OpStore(OpStore { pointer: OpId(num(&i[1][0])), object: OpId(num(&i[2][0])), memory_access: { let z = &i[3]; if z.is_empty() { None } else { Some(b_MemoryAccess(&z[1..])) } } }),
  "OpAccessChain" => Core::OpAccessChain(OpAccessChain { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), base: OpId(num(&i[3][0])), indexes: i[4].iter().map(|x| OpId(num(x))).collect() }),
  "OpDecorate" => Core::OpDecorate(OpDecorate { target: OpId(num(&i[1][0])), decoration: b_Decoration(&i[2]) }),
  "OpMemberDecorate" => Core::OpMemberDecorate(OpMemberDecorate { structure_type: OpId(num(&i[1][0])), member: MemberIndex(num(&i[2][0])), decoration: b_Decoration(&i[3]) }),
  "OpConvertUToF" => Core::OpConvertUToF(OpConvertUToF { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), unsigned_value: OpId(num(&i[3][0])) }),
  "OpBitcast" => Core::OpBitcast(OpBitcast { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand: OpId(num(&i[3][0])) }),
  "OpIAdd" => Core::OpIAdd(OpIAdd { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFAdd" => Core::OpFAdd(OpFAdd { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpISub" => Core::OpISub(OpISub { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFSub" => Core::OpFSub(OpFSub { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpIMul" => Core::OpIMul(OpIMul { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFMul" => Core::OpFMul(OpFMul { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpUDiv" => Core::OpUDiv(OpUDiv { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSDiv" => Core::OpSDiv(OpSDiv { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFDiv" => Core::OpFDiv(OpFDiv { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpUMod" => Core::OpUMod(OpUMod { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSRem" => Core::OpSRem(OpSRem { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSMod" => Core::OpSMod(OpSMod { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFRem" => Core::OpFRem(OpFRem { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFMod" => Core::OpFMod(OpFMod { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpIAddCarry" => Core::OpIAddCarry(OpIAddCarry { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpISubBorrow" => Core::OpISubBorrow(OpISubBorrow { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpUMulExtended" => Core::OpUMulExtended(OpUMulExtended { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSMulExtended" => Core::OpSMulExtended(OpSMulExtended { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpBitwiseOr" => Core::OpBitwiseOr(OpBitwiseOr { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpBitwiseXor" => Core::OpBitwiseXor(OpBitwiseXor { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpBitwiseAnd" => Core::OpBitwiseAnd(OpBitwiseAnd { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpIEqual" => Core::OpIEqual(OpIEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpINotEqual" => Core::OpINotEqual(OpINotEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpUGreaterThan" => Core::OpUGreaterThan(OpUGreaterThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSGreaterThan" => Core::OpSGreaterThan(OpSGreaterThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpUGreaterThanEqual" => Core::OpUGreaterThanEqual(OpUGreaterThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSGreaterThanEqual" => Core::OpSGreaterThanEqual(OpSGreaterThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpULessThan" => Core::OpULessThan(OpULessThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSLessThan" => Core::OpSLessThan(OpSLessThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpULessThanEqual" => Core::OpULessThanEqual(OpULessThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpSLessThanEqual" => Core::OpSLessThanEqual(OpSLessThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFOrdEqual" => Core::OpFOrdEqual(OpFOrdEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFUnordEqual" => Core::OpFUnordEqual(OpFUnordEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFOrdNotEqual" => Core::OpFOrdNotEqual(OpFOrdNotEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFUnordNotEqual" => Core::OpFUnordNotEqual(OpFUnordNotEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFOrdLessThan" => Core::OpFOrdLessThan(OpFOrdLessThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFUnordLessThan" => Core::OpFUnordLessThan(OpFUnordLessThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFOrdGreaterThan" => Core::OpFOrdGreaterThan(OpFOrdGreaterThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFUnordGreaterThan" => Core::OpFUnordGreaterThan(OpFUnordGreaterThan { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFOrdLessThanEqual" => Core::OpFOrdLessThanEqual(OpFOrdLessThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFUnordLessThanEqual" => Core::OpFUnordLessThanEqual(OpFUnordLessThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFOrdGreaterThanEqual" => Core::OpFOrdGreaterThanEqual(OpFOrdGreaterThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpFUnordGreaterThanEqual" => Core::OpFUnordGreaterThanEqual(OpFUnordGreaterThanEqual { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), operand1: OpId(num(&i[3][0])), operand2: OpId(num(&i[4][0])) }),
  "OpPhi" => Core::OpPhi(OpPhi { result_type: OpId(num(&i[1][0])), result_id: ResultId(num(&i[2][0])), variables: b_phi(&i[3]) }),
  "OpLoopMerge" => Core::OpLoopMerge(OpLoopMerge { merge_block: OpId(num(&i[1][0])), continue_target: OpId(num(&i[2][0])), loop_control: b_LoopControl(&i[3]) }),
  "OpSelectionMerge" => Core::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(num(&i[1][0])), selection_control: b_SelectionControl(&i[2]) }),
  "OpLabel" => Core::OpLabel(OpLabel { result_id: ResultId(num(&i[1][0])) }),
  "OpBranch" => Core::OpBranch(OpBranch { target_label: OpId(num(&i[1][0])) }),
  "OpBranchConditional" => Core::OpBranchConditional(OpBranchConditional { condition: OpId(num(&i[1][0])), true_label: OpId(num(&i[2][0])), false_label: OpId(num(&i[3][0])), weights: b_weights(&i[4]) }),
  "OpReturn" => Core::OpReturn(OpReturn),
  s => panic!("HARNESS bad instruction {}", s) } }
pub fn loose(a: &Inst, b: &Inst) -> String { match a[0][0].as_str() {
  "OpLine" => shown(OpLine { file: OpId(num(&a[1][0])), line: Line(num(&a[2][0])), column: Column(num(&a[3][0])) }, OpLine { file: OpId(num(&b[1][0])), line: Line(num(&b[2][0])), column: Column(num(&b[3][0])) }, |x| vec![vec!["OpLine".to_string()], vec![x.file.0.to_string()], vec![x.line.0.to_string()], vec![x.column.0.to_string()]]),
  "OpNoLine" => shown(OpNoLine, OpNoLine, |x| vec![vec!["OpNoLine".to_string()], ]),
  "OpDecorationGroup" => shown(OpDecorationGroup { result_id: ResultId(num(&a[1][0])) }, OpDecorationGroup { result_id: ResultId(num(&b[1][0])) }, |x| vec![vec!["OpDecorationGroup".to_string()], vec![x.result_id.0.to_string()]]),
  "OpGroupDecorate" => shown(OpGroupDecorate { decoration_group: OpId(num(&a[1][0])), targets: a[2].iter().map(|x| OpId(num(x))).collect() }, OpGroupDecorate { decoration_group: OpId(num(&b[1][0])), targets: b[2].iter().map(|x| OpId(num(x))).collect() }, |x| vec![vec!["OpGroupDecorate".to_string()], vec![x.decoration_group.0.to_string()], x.targets.iter().map(|x| x.0.to_string()).collect()]),
  "OpTypeReserveId" => shown(OpTypeReserveId { result_id: ResultId(num(&a[1][0])) }, OpTypeReserveId { result_id: ResultId(num(&b[1][0])) }, |x| vec![vec!["OpTypeReserveId".to_string()], vec![x.result_id.0.to_string()]]),
  "OpConstantTrue" => shown(OpConstantTrue { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])) }, OpConstantTrue { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])) }, |x| vec![vec!["OpConstantTrue".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]]),
  "OpConstantFalse" => shown(OpConstantFalse { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])) }, OpConstantFalse { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])) }, |x| vec![vec!["OpConstantFalse".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]]),
  "OpConstantSampler" => shown(OpConstantSampler { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), addressing_mode: b_SamplerAddressingMode(&a[3][0]), param: b_SamplerParam(&a[4][0]), filter_mode: b_SamplerFilterMode(&a[5][0]) }, OpConstantSampler { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), addressing_mode: b_SamplerAddressingMode(&b[3][0]), param: b_SamplerParam(&b[4][0]), filter_mode: b_SamplerFilterMode(&b[5][0]) }, |x| vec![vec!["OpConstantSampler".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![p_SamplerAddressingMode(&x.addressing_mode)], vec![p_SamplerParam(&x.param)], vec![p_SamplerFilterMode(&x.filter_mode)]]),
  "OpConstantNull" => shown(OpConstantNull { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])) }, OpConstantNull { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])) }, |x| vec![vec!["OpConstantNull".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]]),
  "OpSpecConstantTrue" => shown(OpSpecConstantTrue { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])) }, OpSpecConstantTrue { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])) }, |x| vec![vec!["OpSpecConstantTrue".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]]),
  "OpSpecConstantFalse" => shown(OpSpecConstantFalse { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])) }, OpSpecConstantFalse { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])) }, |x| vec![vec!["OpSpecConstantFalse".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()]]),
  "OpSpecConstant" => shown(OpSpecConstant { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), value: a[3].iter().map(|x| num(x)).collect() }, OpSpecConstant { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), value: b[3].iter().map(|x| num(x)).collect() }, |x| vec![vec!["OpSpecConstant".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], x.value.iter().map(|x| x.to_string()).collect()]),
  "OpSpecConstantComposite" => shown(OpSpecConstantComposite { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), constituents: a[3].iter().map(|x| OpId(num(x))).collect() }, OpSpecConstantComposite { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), constituents: b[3].iter().map(|x| OpId(num(x))).collect() }, |x| vec![vec!["OpSpecConstantComposite".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], x.constituents.iter().map(|x| x.0.to_string()).collect()]),
  "OpImageTexelPointer" => shown(OpImageTexelPointer { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), image: OpId(num(&a[3][0])), coordinate: OpId(num(&a[4][0])), sample: OpId(num(&a[5][0])) }, OpImageTexelPointer { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), image: OpId(num(&b[3][0])), coordinate: OpId(num(&b[4][0])), sample: OpId(num(&b[5][0])) }, |x| vec![vec!["OpImageTexelPointer".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.image.0.to_string()], vec![x.coordinate.0.to_string()], vec![x.sample.0.to_string()]]),
  "OpCopyMemory" => shown(OpCopyMemory { target: OpId(num(&a[1][0])), source: OpId(num(&a[2][0])), memory_access: { let z = &a[3]; if z.is_empty() { None } else { Some(b_MemoryAccess(&z[1..])) } } }, OpCopyMemory { target: OpId(num(&b[1][0])), source: OpId(num(&b[2][0])), memory_access: { let z = &b[3]; if z.is_empty() { None } else { Some(b_MemoryAccess(&z[1..])) } } }, |x| vec![vec!["OpCopyMemory".to_string()], vec![x.target.0.to_string()], vec![x.source.0.to_string()], p_optmask(x.memory_access.as_ref().map(|x| p_MemoryAccess(x)))]),
  "OpCopyMemorySized" => shown(OpCopyMemorySized { target: OpId(num(&a[1][0])), source: OpId(num(&a[2][0])), size: OpId(num(&a[3][0])), memory_access: { let z = &a[4]; if z.is_empty() { None } else { Some(b_MemoryAccess(&z[1..])) } } }, OpCopyMemorySized { target: OpId(num(&b[1][0])), source: OpId(num(&b[2][0])), size: OpId(num(&b[3][0])), memory_access: { let z = &b[4]; if z.is_empty() { None } else { Some(b_MemoryAccess(&z[1..])) } } }, |x| vec![vec!["OpCopyMemorySized".to_string()], vec![x.target.0.to_string()], vec![x.source.0.to_string()], vec![x.size.0.to_string()], p_optmask(x.memory_access.as_ref().map(|x| p_MemoryAccess(x)))]),
  "OpInBoundsAccessChain" => shown(OpInBoundsAccessChain { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), base: OpId(num(&a[3][0])), indexes: a[4].iter().map(|x| OpId(num(x))).collect() }, OpInBoundsAccessChain { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), base: OpId(num(&b[3][0])), indexes: b[4].iter().map(|x| OpId(num(x))).collect() }, |x| vec![vec!["OpInBoundsAccessChain".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], x.indexes.iter().map(|x| x.0.to_string()).collect()]),
  "OpPtrAccessChain" => shown(OpPtrAccessChain { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), base: OpId(num(&a[3][0])), element: OpId(num(&a[4][0])), indexes: a[5].iter().map(|x| OpId(num(x))).collect() }, OpPtrAccessChain { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), base: OpId(num(&b[3][0])), element: OpId(num(&b[4][0])), indexes: b[5].iter().map(|x| OpId(num(x))).collect() }, |x| vec![vec!["OpPtrAccessChain".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], vec![x.element.0.to_string()], x.indexes.iter().map(|x| x.0.to_string()).collect()]),
  "OpArrayLength" => shown(OpArrayLength { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), structure: OpId(num(&a[3][0])), array_member: MemberIndex(num(&a[4][0])) }, OpArrayLength { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), structure: OpId(num(&b[3][0])), array_member: MemberIndex(num(&b[4][0])) }, |x| vec![vec!["OpArrayLength".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.structure.0.to_string()], vec![x.array_member.0.to_string()]]),
  "OpGenericPtrMemSemantics" => shown(OpGenericPtrMemSemantics { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), pointer: OpId(num(&a[3][0])) }, OpGenericPtrMemSemantics { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), pointer: OpId(num(&b[3][0])) }, |x| vec![vec!["OpGenericPtrMemSemantics".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.pointer.0.to_string()]]),
  "OpInBoundsPtrAccessChain" => shown(OpInBoundsPtrAccessChain { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), base: OpId(num(&a[3][0])), element: OpId(num(&a[4][0])), indexes: a[5].iter().map(|x| OpId(num(x))).collect() }, OpInBoundsPtrAccessChain { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), base: OpId(num(&b[3][0])), element: OpId(num(&b[4][0])), indexes: b[5].iter().map(|x| OpId(num(x))).collect() }, |x| vec![vec!["OpInBoundsPtrAccessChain".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], vec![x.element.0.to_string()], x.indexes.iter().map(|x| x.0.to_string()).collect()]),
  "OpFunctionCall" => shown(OpFunctionCall { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), function: OpId(num(&a[3][0])), arguments: a[4].iter().map(|x| OpId(num(x))).collect() }, OpFunctionCall { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), function: OpId(num(&b[3][0])), arguments: b[4].iter().map(|x| OpId(num(x))).collect() }, |x| vec![vec!["OpFunctionCall".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.function.0.to_string()], x.arguments.iter().map(|x| x.0.to_string()).collect()]),
  "OpSampledImage" => shown(OpSampledImage { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), image: OpId(num(&a[3][0])), sampler: OpId(num(&a[4][0])) }, OpSampledImage { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), image: OpId(num(&b[3][0])), sampler: OpId(num(&b[4][0])) }, |x| vec![vec!["OpSampledImage".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.image.0.to_string()], vec![x.sampler.0.to_string()]]),
  "OpConvertFToU" => shown(OpConvertFToU { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), float_value: OpId(num(&a[3][0])) }, OpConvertFToU { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), float_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpConvertFToU".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.float_value.0.to_string()]]),
  "OpConvertFToS" => shown(OpConvertFToS { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), float_value: OpId(num(&a[3][0])) }, OpConvertFToS { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), float_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpConvertFToS".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.float_value.0.to_string()]]),
  "OpConvertSToF" => shown(OpConvertSToF { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), signed_value: OpId(num(&a[3][0])) }, OpConvertSToF { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), signed_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpConvertSToF".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.signed_value.0.to_string()]]),
  "OpUConvert" => shown(OpUConvert { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), unsigned_value: OpId(num(&a[3][0])) }, OpUConvert { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), unsigned_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpUConvert".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.unsigned_value.0.to_string()]]),
  "OpSConvert" => shown(OpSConvert { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), signed_value: OpId(num(&a[3][0])) }, OpSConvert { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), signed_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpSConvert".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.signed_value.0.to_string()]]),
  "OpFConvert" => shown(OpFConvert { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), float_value: OpId(num(&a[3][0])) }, OpFConvert { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), float_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpFConvert".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.float_value.0.to_string()]]),
  "OpQuantizeToF16" => shown(OpQuantizeToF16 { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), value: OpId(num(&a[3][0])) }, OpQuantizeToF16 { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpQuantizeToF16".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.value.0.to_string()]]),
  "OpConvertPtrToU" => shown(OpConvertPtrToU { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), pointer: OpId(num(&a[3][0])) }, OpConvertPtrToU { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), pointer: OpId(num(&b[3][0])) }, |x| vec![vec!["OpConvertPtrToU".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.pointer.0.to_string()]]),
  "OpSatConvertSToU" => shown(OpSatConvertSToU { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), signed_value: OpId(num(&a[3][0])) }, OpSatConvertSToU { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), signed_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpSatConvertSToU".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.signed_value.0.to_string()]]),
  "OpSatConvertUToS" => shown(OpSatConvertUToS { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), unsigned_value: OpId(num(&a[3][0])) }, OpSatConvertUToS { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), unsigned_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpSatConvertUToS".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.unsigned_value.0.to_string()]]),
  "OpConvertUToPtr" => shown(OpConvertUToPtr { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), integer_value: OpId(num(&a[3][0])) }, OpConvertUToPtr { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), integer_value: OpId(num(&b[3][0])) }, |x| vec![vec!["OpConvertUToPtr".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.integer_value.0.to_string()]]),
  "OpPtrCastToGeneric" => shown(OpPtrCastToGeneric { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), pointer: OpId(num(&a[3][0])) }, OpPtrCastToGeneric { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), pointer: OpId(num(&b[3][0])) }, |x| vec![vec!["OpPtrCastToGeneric".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.pointer.0.to_string()]]),
  "OpGenericCastToPtr" => shown(OpGenericCastToPtr { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), pointer: OpId(num(&a[3][0])) }, OpGenericCastToPtr { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), pointer: OpId(num(&b[3][0])) }, |x| vec![vec!["OpGenericCastToPtr".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.pointer.0.to_string()]]),
  "OpGenericCastToPtrExplicit" => shown(OpGenericCastToPtrExplicit { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), pointer: OpId(num(&a[3][0])), storage_class: b_StorageClass(&a[4][0]) }, OpGenericCastToPtrExplicit { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), pointer: OpId(num(&b[3][0])), storage_class: b_StorageClass(&b[4][0]) }, |x| vec![vec!["OpGenericCastToPtrExplicit".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.pointer.0.to_string()], vec![p_StorageClass(&x.storage_class)]]),
  "OpVectorExtractDynamic" => shown(OpVectorExtractDynamic { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), vector: OpId(num(&a[3][0])), index: OpId(num(&a[4][0])) }, OpVectorExtractDynamic { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), vector: OpId(num(&b[3][0])), index: OpId(num(&b[4][0])) }, |x| vec![vec!["OpVectorExtractDynamic".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.vector.0.to_string()], vec![x.index.0.to_string()]]),
  "OpVectorInsertDynamic" => shown(OpVectorInsertDynamic { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), vector: OpId(num(&a[3][0])), component: OpId(num(&a[4][0])), index: OpId(num(&a[5][0])) }, OpVectorInsertDynamic { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), vector: OpId(num(&b[3][0])), component: OpId(num(&b[4][0])), index: OpId(num(&b[5][0])) }, |x| vec![vec!["OpVectorInsertDynamic".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.vector.0.to_string()], vec![x.component.0.to_string()], vec![x.index.0.to_string()]]),
  "OpVectorShuffle" => shown(OpVectorShuffle { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), operand1: OpId(num(&a[3][0])), operand2: OpId(num(&a[4][0])), components: a[5].iter().map(|x| MemberIndex(num(x))).collect() }, OpVectorShuffle { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), operand1: OpId(num(&b[3][0])), operand2: OpId(num(&b[4][0])), components: b[5].iter().map(|x| MemberIndex(num(x))).collect() }, |x| vec![vec!["OpVectorShuffle".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand1.0.to_string()], vec![x.operand2.0.to_string()], x.components.iter().map(|x| x.0.to_string()).collect()]),
  "OpCompositeConstruct" => shown(OpCompositeConstruct { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), constituents: a[3].iter().map(|x| MemberIndex(num(x))).collect() }, OpCompositeConstruct { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), constituents: b[3].iter().map(|x| MemberIndex(num(x))).collect() }, |x| vec![vec!["OpCompositeConstruct".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], x.constituents.iter().map(|x| x.0.to_string()).collect()]),
  "OpCompositeExtract" => shown(OpCompositeExtract { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), composite: OpId(num(&a[3][0])), indexes: a[4].iter().map(|x| MemberIndex(num(x))).collect() }, OpCompositeExtract { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), composite: OpId(num(&b[3][0])), indexes: b[4].iter().map(|x| MemberIndex(num(x))).collect() }, |x| vec![vec!["OpCompositeExtract".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.composite.0.to_string()], x.indexes.iter().map(|x| x.0.to_string()).collect()]),
  "OpCompositeInsert" => shown(OpCompositeInsert { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), object: OpId(num(&a[3][0])), composite: OpId(num(&a[4][0])), indexes: a[5].iter().map(|x| MemberIndex(num(x))).collect() }, OpCompositeInsert { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), object: OpId(num(&b[3][0])), composite: OpId(num(&b[4][0])), indexes: b[5].iter().map(|x| MemberIndex(num(x))).collect() }, |x| vec![vec!["OpCompositeInsert".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.object.0.to_string()], vec![x.composite.0.to_string()], x.indexes.iter().map(|x| x.0.to_string()).collect()]),
  "OpCopyObject" => shown(OpCopyObject { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), operand: OpId(num(&a[3][0])) }, OpCopyObject { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), operand: OpId(num(&b[3][0])) }, |x| vec![vec!["OpCopyObject".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand.0.to_string()]]),
  "OpTranspose" => shown(OpTranspose { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), matrix: OpId(num(&a[3][0])) }, OpTranspose { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), matrix: OpId(num(&b[3][0])) }, |x| vec![vec!["OpTranspose".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.matrix.0.to_string()]]),
  "OpSNegate" => shown(OpSNegate { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), operand: OpId(num(&a[3][0])) }, OpSNegate { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), operand: OpId(num(&b[3][0])) }, |x| vec![vec!["OpSNegate".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand.0.to_string()]]),
  "OpFNegate" => shown(OpFNegate { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), operand: OpId(num(&a[3][0])) }, OpFNegate { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), operand: OpId(num(&b[3][0])) }, |x| vec![vec!["OpFNegate".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand.0.to_string()]]),
  "OpVectorTimesScalar" => shown(OpVectorTimesScalar { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), vector: OpId(num(&a[3][0])), scalar: OpId(num(&a[4][0])) }, OpVectorTimesScalar { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), vector: OpId(num(&b[3][0])), scalar: OpId(num(&b[4][0])) }, |x| vec![vec!["OpVectorTimesScalar".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.vector.0.to_string()], vec![x.scalar.0.to_string()]]),
  "OpMatrixTimesScalar" => shown(OpMatrixTimesScalar { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), matrix: OpId(num(&a[3][0])), scalar: OpId(num(&a[4][0])) }, OpMatrixTimesScalar { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), matrix: OpId(num(&b[3][0])), scalar: OpId(num(&b[4][0])) }, |x| vec![vec!["OpMatrixTimesScalar".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.matrix.0.to_string()], vec![x.scalar.0.to_string()]]),
  "OpVectorTimesMatrix" => shown(OpVectorTimesMatrix { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), vector: OpId(num(&a[3][0])), matrix: OpId(num(&a[4][0])) }, OpVectorTimesMatrix { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), vector: OpId(num(&b[3][0])), matrix: OpId(num(&b[4][0])) }, |x| vec![vec!["OpVectorTimesMatrix".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.vector.0.to_string()], vec![x.matrix.0.to_string()]]),
  "OpMatrixTimesVector" => shown(OpMatrixTimesVector { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), matrix: OpId(num(&a[3][0])), vector: OpId(num(&a[4][0])) }, OpMatrixTimesVector { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), matrix: OpId(num(&b[3][0])), vector: OpId(num(&b[4][0])) }, |x| vec![vec!["OpMatrixTimesVector".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.matrix.0.to_string()], vec![x.vector.0.to_string()]]),
  "OpMatrixTimesMatrix" => shown(OpMatrixTimesMatrix { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), left_matrix: OpId(num(&a[3][0])), right_matrix: OpId(num(&a[4][0])) }, OpMatrixTimesMatrix { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), left_matrix: OpId(num(&b[3][0])), right_matrix: OpId(num(&b[4][0])) }, |x| vec![vec!["OpMatrixTimesMatrix".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.left_matrix.0.to_string()], vec![x.right_matrix.0.to_string()]]),
  "OpOuterProduct" => shown(OpOuterProduct { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), vector1: OpId(num(&a[3][0])), vector2: OpId(num(&a[4][0])) }, OpOuterProduct { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), vector1: OpId(num(&b[3][0])), vector2: OpId(num(&b[4][0])) }, |x| vec![vec!["OpOuterProduct".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.vector1.0.to_string()], vec![x.vector2.0.to_string()]]),
  "OpDot" => shown(OpDot { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), vector1: OpId(num(&a[3][0])), vector2: OpId(num(&a[4][0])) }, OpDot { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), vector1: OpId(num(&b[3][0])), vector2: OpId(num(&b[4][0])) }, |x| vec![vec!["OpDot".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.vector1.0.to_string()], vec![x.vector2.0.to_string()]]),
  "OpShiftRightLogical" => shown(OpShiftRightLogical { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), base: OpId(num(&a[3][0])), shift: OpId(num(&a[4][0])) }, OpShiftRightLogical { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), base: OpId(num(&b[3][0])), shift: OpId(num(&b[4][0])) }, |x| vec![vec!["OpShiftRightLogical".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], vec![x.shift.0.to_string()]]),
  "OpShiftRightArithmetic" => shown(OpShiftRightArithmetic { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), base: OpId(num(&a[3][0])), shift: OpId(num(&a[4][0])) }, OpShiftRightArithmetic { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), base: OpId(num(&b[3][0])), shift: OpId(num(&b[4][0])) }, |x| vec![vec!["OpShiftRightArithmetic".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], vec![x.shift.0.to_string()]]),
  "OpShiftLeftLogical" => shown(OpShiftLeftLogical { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), base: OpId(num(&a[3][0])), shift: OpId(num(&a[4][0])) }, OpShiftLeftLogical { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), base: OpId(num(&b[3][0])), shift: OpId(num(&b[4][0])) }, |x| vec![vec!["OpShiftLeftLogical".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.base.0.to_string()], vec![x.shift.0.to_string()]]),
  "OpNot" => shown(OpNot { result_type: OpId(num(&a[1][0])), result_id: ResultId(num(&a[2][0])), operand: OpId(num(&a[3][0])) }, OpNot { result_type: OpId(num(&b[1][0])), result_id: ResultId(num(&b[2][0])), operand: OpId(num(&b[3][0])) }, |x| vec![vec!["OpNot".to_string()], vec![x.result_type.0.to_string()], vec![x.result_id.0.to_string()], vec![x.operand.0.to_string()]]),
  s => panic!("HARNESS bad instruction {}", s) } }
pub fn b_readerr(s: &[String]) -> ReadError { match s[0].as_str() {
  "UnexpectedEndOfStream" => ReadError::UnexpectedEndOfStream,
  "UnexpectedStreamAlignment" => ReadError::UnexpectedStreamAlignment,
  "BadMagic" => ReadError::BadMagic,
  "UnknownVersionBytes" => ReadError::UnknownVersionBytes(num(&s[1]) as u8, num(&s[2]) as u8, num(&s[3]) as u8, num(&s[4]) as u8),
  "UnknownVersion" => ReadError::UnknownVersion(Version(num(&s[1]) as u8, num(&s[2]) as u8)),
  "UnknownReservedSchema" => ReadError::UnknownReservedSchema,
  "UnknownOp" => ReadError::UnknownOp(num(&s[1]) as u16, num(&s[2]) as u16),
  "UnimplementedOp" => ReadError::UnimplementedOp(leak(&s[1])),
  "WrongWordCountForOp" => ReadError::WrongWordCountForOp,
  "InvalidString" => ReadError::InvalidString,
  "UnexpectedEndOfInstruction" => ReadError::UnexpectedEndOfInstruction,
  "InstructionHadExcessData" => ReadError::InstructionHadExcessData,
  "UnknownInstSet" => ReadError::UnknownInstSet(unhex(&s[1..])),
  "UnknownInstSetId" => ReadError::UnknownInstSetId(OpId(num(&s[1]))),
  "UnknownExtInstOp" => ReadError::UnknownExtInstOp(leak(&s[1]), num(&s[2])),
  "DuplicateResultId" => ReadError::DuplicateResultId(ResultId(num(&s[1]))),
  "UnknownAddressingModel" => ReadError::UnknownAddressingModel(num(&s[1])),
  "UnknownMemoryModel" => ReadError::UnknownMemoryModel(num(&s[1])),
  "UnknownExecutionModel" => ReadError::UnknownExecutionModel(num(&s[1])),
  "UnknownExecutionMode" => ReadError::UnknownExecutionMode(num(&s[1])),
  "UnknownCapability" => ReadError::UnknownCapability(num(&s[1])),
  "UnknownDecoration" => ReadError::UnknownDecoration(num(&s[1])),
  "UnknownBuiltIn" => ReadError::UnknownBuiltIn(num(&s[1])),
  "UnknownFpRoundingMode" => ReadError::UnknownFpRoundingMode(num(&s[1])),
  "UnknownFpFastMathMode" => ReadError::UnknownFpFastMathMode(num(&s[1])),
  "UnknownLinkageType" => ReadError::UnknownLinkageType(num(&s[1])),
  "UnknownSignedness" => ReadError::UnknownSignedness(num(&s[1])),
  "UnknownStorageClass" => ReadError::UnknownStorageClass(num(&s[1])),
  "UnknownFunctionParameterAttribute" => ReadError::UnknownFunctionParameterAttribute(num(&s[1])),
  "UnknownFunctionControl" => ReadError::UnknownFunctionControl(num(&s[1])),
  "UnknownMemoryAccess" => ReadError::UnknownMemoryAccess(num(&s[1])),
  "UnknownDim" => ReadError::UnknownDim(num(&s[1])),
  "UnknownDepthStatus" => ReadError::UnknownDepthStatus(num(&s[1])),
  "UnknownArrayed" => ReadError::UnknownArrayed(num(&s[1])),
  "UnknownMS" => ReadError::UnknownMS(num(&s[1])),
  "UnknownSampledStatus" => ReadError::UnknownSampledStatus(num(&s[1])),
  "UnknownImageFormat" => ReadError::UnknownImageFormat(num(&s[1])),
  "UnknownAccessQualifier" => ReadError::UnknownAccessQualifier(num(&s[1])),
  "UnknownLoopControl" => ReadError::UnknownLoopControl(num(&s[1])),
  "UnknownSelectionControl" => ReadError::UnknownSelectionControl(num(&s[1])),
  x => panic!("HARNESS bad error {}", x) } }
pub fn g_GroupDebug(x: &GroupDebug) -> Inst { match *x {
  GroupDebug::OpSourceContinued(ref y) => p_OpSourceContinued(y),
  GroupDebug::OpSource(ref y) => p_OpSource(y),
  GroupDebug::OpSourceExtension(ref y) => p_OpSourceExtension(y),
  GroupDebug::OpName(ref y) => p_OpName(y),
  GroupDebug::OpMemberName(ref y) => p_OpMemberName(y),
  GroupDebug::OpString(ref y) => p_OpString(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn g_GroupAnnotation(x: &GroupAnnotation) -> Inst { match *x {
  GroupAnnotation::OpDecorate(ref y) => p_OpDecorate(y),
  GroupAnnotation::OpMemberDecorate(ref y) => p_OpMemberDecorate(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn g_GroupType(x: &GroupType) -> Inst { match *x {
  GroupType::OpTypeVoid(ref y) => p_OpTypeVoid(y),
  GroupType::OpTypeBool(ref y) => p_OpTypeBool(y),
  GroupType::OpTypeInt(ref y) => p_OpTypeInt(y),
  GroupType::OpTypeFloat(ref y) => p_OpTypeFloat(y),
  GroupType::OpTypeVector(ref y) => p_OpTypeVector(y),
  GroupType::OpTypeMatrix(ref y) => p_OpTypeMatrix(y),
  GroupType::OpTypeImage(ref y) => p_OpTypeImage(y),
  GroupType::OpTypeSampler(ref y) => p_OpTypeSampler(y),
  GroupType::OpTypeSampledImage(ref y) => p_OpTypeSampledImage(y),
  GroupType::OpTypeArray(ref y) => p_OpTypeArray(y),
  GroupType::OpTypeRuntimeArray(ref y) => p_OpTypeRuntimeArray(y),
  GroupType::OpTypeStruct(ref y) => p_OpTypeStruct(y),
  GroupType::OpTypeOpaque(ref y) => p_OpTypeOpaque(y),
  GroupType::OpTypePointer(ref y) => p_OpTypePointer(y),
  GroupType::OpTypeFunction(ref y) => p_OpTypeFunction(y),
  GroupType::OpTypeEvent(ref y) => p_OpTypeEvent(y),
  GroupType::OpTypeDeviceEvent(ref y) => p_OpTypeDeviceEvent(y),
  GroupType::OpTypeQueue(ref y) => p_OpTypeQueue(y),
  GroupType::OpTypePipe(ref y) => p_OpTypePipe(y),
  GroupType::OpTypeForwardPointer(ref y) => p_OpTypeForwardPointer(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn g_GroupConstant(x: &GroupConstant) -> Inst { match *x {
  GroupConstant::OpConstant(ref y) => p_OpConstant(y),
  GroupConstant::OpConstantComposite(ref y) => p_OpConstantComposite(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn g_GroupCode(x: &GroupCode) -> Inst { match *x {
  GroupCode::OpVariable(ref y) => p_OpVariable(y),
  GroupCode::OpNop(ref y) => p_OpNop(y),
  GroupCode::OpUndef(ref y) => p_OpUndef(y),
  GroupCode::OpExtInst(ref y) => p_OpExtInst(y),
  GroupCode::OpLoad(ref y) => p_OpLoad(y),
  GroupCode::OpStore(ref y) => p_OpStore(y),
  GroupCode::OpAccessChain(ref y) => p_OpAccessChain(y),
  GroupCode::OpConvertUToF(ref y) => p_OpConvertUToF(y),
  GroupCode::OpBitcast(ref y) => p_OpBitcast(y),
  GroupCode::OpIAdd(ref y) => p_OpIAdd(y),
  GroupCode::OpFAdd(ref y) => p_OpFAdd(y),
  GroupCode::OpISub(ref y) => p_OpISub(y),
  GroupCode::OpFSub(ref y) => p_OpFSub(y),
  GroupCode::OpIMul(ref y) => p_OpIMul(y),
  GroupCode::OpFMul(ref y) => p_OpFMul(y),
  GroupCode::OpUDiv(ref y) => p_OpUDiv(y),
  GroupCode::OpSDiv(ref y) => p_OpSDiv(y),
  GroupCode::OpFDiv(ref y) => p_OpFDiv(y),
  GroupCode::OpUMod(ref y) => p_OpUMod(y),
  GroupCode::OpSRem(ref y) => p_OpSRem(y),
  GroupCode::OpSMod(ref y) => p_OpSMod(y),
  GroupCode::OpFRem(ref y) => p_OpFRem(y),
  GroupCode::OpFMod(ref y) => p_OpFMod(y),
  GroupCode::OpIAddCarry(ref y) => p_OpIAddCarry(y),
  GroupCode::OpISubBorrow(ref y) => p_OpISubBorrow(y),
  GroupCode::OpUMulExtended(ref y) => p_OpUMulExtended(y),
  GroupCode::OpSMulExtended(ref y) => p_OpSMulExtended(y),
  GroupCode::OpBitwiseOr(ref y) => p_OpBitwiseOr(y),
  GroupCode::OpBitwiseXor(ref y) => p_OpBitwiseXor(y),
  GroupCode::OpBitwiseAnd(ref y) => p_OpBitwiseAnd(y),
  GroupCode::OpIEqual(ref y) => p_OpIEqual(y),
  GroupCode::OpINotEqual(ref y) => p_OpINotEqual(y),
  GroupCode::OpUGreaterThan(ref y) => p_OpUGreaterThan(y),
  GroupCode::OpSGreaterThan(ref y) => p_OpSGreaterThan(y),
  GroupCode::OpUGreaterThanEqual(ref y) => p_OpUGreaterThanEqual(y),
  GroupCode::OpSGreaterThanEqual(ref y) => p_OpSGreaterThanEqual(y),
  GroupCode::OpULessThan(ref y) => p_OpULessThan(y),
  GroupCode::OpSLessThan(ref y) => p_OpSLessThan(y),
  GroupCode::OpULessThanEqual(ref y) => p_OpULessThanEqual(y),
  GroupCode::OpSLessThanEqual(ref y) => p_OpSLessThanEqual(y),
  GroupCode::OpFOrdEqual(ref y) => p_OpFOrdEqual(y),
  GroupCode::OpFUnordEqual(ref y) => p_OpFUnordEqual(y),
  GroupCode::OpFOrdNotEqual(ref y) => p_OpFOrdNotEqual(y),
  GroupCode::OpFUnordNotEqual(ref y) => p_OpFUnordNotEqual(y),
  GroupCode::OpFOrdLessThan(ref y) => p_OpFOrdLessThan(y),
  GroupCode::OpFUnordLessThan(ref y) => p_OpFUnordLessThan(y),
  GroupCode::OpFOrdGreaterThan(ref y) => p_OpFOrdGreaterThan(y),
  GroupCode::OpFUnordGreaterThan(ref y) => p_OpFUnordGreaterThan(y),
  GroupCode::OpFOrdLessThanEqual(ref y) => p_OpFOrdLessThanEqual(y),
  GroupCode::OpFUnordLessThanEqual(ref y) => p_OpFUnordLessThanEqual(y),
  GroupCode::OpFOrdGreaterThanEqual(ref y) => p_OpFOrdGreaterThanEqual(y),
  GroupCode::OpFUnordGreaterThanEqual(ref y) => p_OpFUnordGreaterThanEqual(y),
  GroupCode::OpPhi(ref y) => p_OpPhi(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn g_GroupMerge(x: &GroupMerge) -> Inst { match *x {
  GroupMerge::OpLoopMerge(ref y) => p_OpLoopMerge(y),
  GroupMerge::OpSelectionMerge(ref y) => p_OpSelectionMerge(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn g_GroupBranch(x: &GroupBranch) -> Inst { match *x {
  GroupBranch::OpBranch(ref y) => p_OpBranch(y),
  GroupBranch::OpBranchConditional(ref y) => p_OpBranchConditional(y),
  GroupBranch::OpReturn(ref y) => p_OpReturn(y),
  _ => vec![vec!["?".to_string()]] } }
pub fn h_GroupCode(c: Core) -> Option<GroupCode> { match c {
  Core::OpVariable(y) => Some(GroupCode::OpVariable(y)),
  Core::OpNop(y) => Some(GroupCode::OpNop(y)),
  Core::OpUndef(y) => Some(GroupCode::OpUndef(y)),
  Core::OpExtInst(y) => Some(GroupCode::OpExtInst(y)),
  Core::OpLoad(y) => Some(GroupCode::OpLoad(y)),
  Core::OpStore(y) => Some(GroupCode::OpStore(y)),
  Core::OpAccessChain(y) => Some(GroupCode::OpAccessChain(y)),
  Core::OpConvertUToF(y) => Some(GroupCode::OpConvertUToF(y)),
  Core::OpBitcast(y) => Some(GroupCode::OpBitcast(y)),
  Core::OpIAdd(y) => Some(GroupCode::OpIAdd(y)),
  Core::OpFAdd(y) => Some(GroupCode::OpFAdd(y)),
  Core::OpISub(y) => Some(GroupCode::OpISub(y)),
  Core::OpFSub(y) => Some(GroupCode::OpFSub(y)),
  Core::OpIMul(y) => Some(GroupCode::OpIMul(y)),
  Core::OpFMul(y) => Some(GroupCode::OpFMul(y)),
  Core::OpUDiv(y) => Some(GroupCode::OpUDiv(y)),
  Core::OpSDiv(y) => Some(GroupCode::OpSDiv(y)),
  Core::OpFDiv(y) => Some(GroupCode::OpFDiv(y)),
  Core::OpUMod(y) => Some(GroupCode::OpUMod(y)),
  Core::OpSRem(y) => Some(GroupCode::OpSRem(y)),
  Core::OpSMod(y) => Some(GroupCode::OpSMod(y)),
  Core::OpFRem(y) => Some(GroupCode::OpFRem(y)),
  Core::OpFMod(y) => Some(GroupCode::OpFMod(y)),
  Core::OpIAddCarry(y) => Some(GroupCode::OpIAddCarry(y)),
  Core::OpISubBorrow(y) => Some(GroupCode::OpISubBorrow(y)),
  Core::OpUMulExtended(y) => Some(GroupCode::OpUMulExtended(y)),
  Core::OpSMulExtended(y) => Some(GroupCode::OpSMulExtended(y)),
  Core::OpBitwiseOr(y) => Some(GroupCode::OpBitwiseOr(y)),
  Core::OpBitwiseXor(y) => Some(GroupCode::OpBitwiseXor(y)),
  Core::OpBitwiseAnd(y) => Some(GroupCode::OpBitwiseAnd(y)),
  Core::OpIEqual(y) => Some(GroupCode::OpIEqual(y)),
  Core::OpINotEqual(y) => Some(GroupCode::OpINotEqual(y)),
  Core::OpUGreaterThan(y) => Some(GroupCode::OpUGreaterThan(y)),
  Core::OpSGreaterThan(y) => Some(GroupCode::OpSGreaterThan(y)),
  Core::OpUGreaterThanEqual(y) => Some(GroupCode::OpUGreaterThanEqual(y)),
  Core::OpSGreaterThanEqual(y) => Some(GroupCode::OpSGreaterThanEqual(y)),
  Core::OpULessThan(y) => Some(GroupCode::OpULessThan(y)),
  Core::OpSLessThan(y) => Some(GroupCode::OpSLessThan(y)),
  Core::OpULessThanEqual(y) => Some(GroupCode::OpULessThanEqual(y)),
  Core::OpSLessThanEqual(y) => Some(GroupCode::OpSLessThanEqual(y)),
  Core::OpFOrdEqual(y) => Some(GroupCode::OpFOrdEqual(y)),
  Core::OpFUnordEqual(y) => Some(GroupCode::OpFUnordEqual(y)),
  Core::OpFOrdNotEqual(y) => Some(GroupCode::OpFOrdNotEqual(y)),
  Core::OpFUnordNotEqual(y) => Some(GroupCode::OpFUnordNotEqual(y)),
  Core::OpFOrdLessThan(y) => Some(GroupCode::OpFOrdLessThan(y)),
  Core::OpFUnordLessThan(y) => Some(GroupCode::OpFUnordLessThan(y)),
  Core::OpFOrdGreaterThan(y) => Some(GroupCode::OpFOrdGreaterThan(y)),
  Core::OpFUnordGreaterThan(y) => Some(GroupCode::OpFUnordGreaterThan(y)),
  Core::OpFOrdLessThanEqual(y) => Some(GroupCode::OpFOrdLessThanEqual(y)),
  Core::OpFUnordLessThanEqual(y) => Some(GroupCode::OpFUnordLessThanEqual(y)),
  Core::OpFOrdGreaterThanEqual(y) => Some(GroupCode::OpFOrdGreaterThanEqual(y)),
  Core::OpFUnordGreaterThanEqual(y) => Some(GroupCode::OpFUnordGreaterThanEqual(y)),
  Core::OpPhi(y) => Some(GroupCode::OpPhi(y)),
  _ => None } }
pub fn h_GroupMerge(c: Core) -> Option<GroupMerge> { match c {
  Core::OpLoopMerge(y) => Some(GroupMerge::OpLoopMerge(y)),
  Core::OpSelectionMerge(y) => Some(GroupMerge::OpSelectionMerge(y)),
  _ => None } }
pub fn h_GroupBranch(c: Core) -> Option<GroupBranch> { match c {
  Core::OpBranch(y) => Some(GroupBranch::OpBranch(y)),
  Core::OpBranchConditional(y) => Some(GroupBranch::OpBranchConditional(y)),
  Core::OpReturn(y) => Some(GroupBranch::OpReturn(y)),
  _ => None } }
pub fn tool(x: &Tool) -> Vec<String> { match *x {
  Tool::KhronosReserved => vec!["KhronosReserved".to_string()],
  Tool::LunarG => vec!["LunarG".to_string()],
  Tool::Valve => vec!["Valve".to_string()],
  Tool::Codeplay => vec!["Codeplay".to_string()],
  Tool::Nvidia => vec!["Nvidia".to_string()],
  Tool::Arm => vec!["Arm".to_string()],
  Tool::KhronosLLvmTranslator => vec!["KhronosLLvmTranslator".to_string()],
  Tool::KhronosAssembler => vec!["KhronosAssembler".to_string()],
  Tool::KhronosGlslang => vec!["KhronosGlslang".to_string()],
  Tool::Qualcomm => vec!["Qualcomm".to_string()],
  Tool::Amd => vec!["Amd".to_string()],
  Tool::Intel => vec!["Intel".to_string()],
  Tool::Other(n) => vec!["Other".to_string(), n.to_string()], } }
pub fn b_tool(s: &[String]) -> Tool { match s[0].as_str() {
  "KhronosReserved" => Tool::KhronosReserved,
  "LunarG" => Tool::LunarG,
  "Valve" => Tool::Valve,
  "Codeplay" => Tool::Codeplay,
  "Nvidia" => Tool::Nvidia,
  "Arm" => Tool::Arm,
  "KhronosLLvmTranslator" => Tool::KhronosLLvmTranslator,
  "KhronosAssembler" => Tool::KhronosAssembler,
  "KhronosGlslang" => Tool::KhronosGlslang,
  "Qualcomm" => Tool::Qualcomm,
  "Amd" => Tool::Amd,
  "Intel" => Tool::Intel,
  _ => Tool::Other(num(&s[1]) as u16), } }
pub fn take<'a>(how: &str, kind: &str, b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Inst> { match kind {
  "id" => taking::<OpId>(how, b, |x| vec![x.0.to_string()]),
  "res" => taking::<ResultId>(how, b, |x| vec![x.0.to_string()]),
  "u32" => taking::<u32>(how, b, |x| vec![x.to_string()]),
  "ver" => taking::<SourceVersion>(how, b, |x| vec![x.0.to_string()]),
  "member" => taking::<MemberIndex>(how, b, |x| vec![x.0.to_string()]),
  "str" => taking::<LitString>(how, b, |x| hex(x)),
  "srclang" => taking::<SourceLanguage>(how, b, |x| p_srclang(x)),
  "pair" => taking::<PhiArg>(how, b, |x| vec![x.variable.0.to_string(), x.parent.0.to_string()]),
  "weightpair" => taking::<BranchWeights>(how, b, |x| vec![x.true_weight.to_string(), x.false_weight.to_string()]),
  "enum:AddressingModel" => taking::<AddressingModel>(how, b, |x| vec![p_AddressingModel(x)]),
  "enum:MemoryModel" => taking::<MemoryModel>(how, b, |x| vec![p_MemoryModel(x)]),
  "enum:ExecutionModel" => taking::<ExecutionModel>(how, b, |x| vec![p_ExecutionModel(x)]),
  "enum:Capability" => taking::<Capability>(how, b, |x| vec![p_Capability(x)]),
  "enum:Signedness" => taking::<Signedness>(how, b, |x| vec![p_Signedness(x)]),
  "enum:Dim" => taking::<Dim>(how, b, |x| vec![p_Dim(x)]),
  "enum:DepthStatus" => taking::<DepthStatus>(how, b, |x| vec![p_DepthStatus(x)]),
  "enum:Arrayed" => taking::<Arrayed>(how, b, |x| vec![p_Arrayed(x)]),
  "enum:MS" => taking::<MS>(how, b, |x| vec![p_MS(x)]),
  "enum:SampledStatus" => taking::<SampledStatus>(how, b, |x| vec![p_SampledStatus(x)]),
  "enum:ImageFormat" => taking::<ImageFormat>(how, b, |x| vec![p_ImageFormat(x)]),
  "enum:AccessQualifier" => taking::<AccessQualifier>(how, b, |x| vec![p_AccessQualifier(x)]),
  "enum:StorageClass" => taking::<StorageClass>(how, b, |x| vec![p_StorageClass(x)]),
  "enum:BuiltIn" => taking::<BuiltIn>(how, b, |x| vec![p_BuiltIn(x)]),
  "enum:FunctionParameterAttribute" => taking::<FunctionParameterAttribute>(how, b, |x| vec![p_FunctionParameterAttribute(x)]),
  "enum:FpRoundingMode" => taking::<FpRoundingMode>(how, b, |x| vec![p_FpRoundingMode(x)]),
  "enum:LinkageType" => taking::<LinkageType>(how, b, |x| vec![p_LinkageType(x)]),
  "mask:FunctionControl" => taking::<FunctionControl>(how, b, |x| p_FunctionControl(x)),
  "mask:MemoryAccess" => taking::<MemoryAccess>(how, b, |x| p_MemoryAccess(x)),
  "mask:LoopControl" => taking::<LoopControl>(how, b, |x| p_LoopControl(x)),
  "mask:SelectionControl" => taking::<SelectionControl>(how, b, |x| p_SelectionControl(x)),
  "mask:FpFastMathMode" => taking::<FpFastMathMode>(how, b, |x| p_FpFastMathMode(x)),
  "comp:ExecutionMode" => taking::<ExecutionMode>(how, b, |x| p_ExecutionMode(x)),
  "comp:Decoration" => taking::<Decoration>(how, b, |x| p_Decoration(x)),
  s => panic!("HARNESS bad operand kind {}", s) } }
pub fn part(kind: &str, a: &[String], b: &[String]) -> String { match kind {
  "id" => shown::<OpId>(OpId(num(&a[0])), OpId(num(&b[0])), |x| vec![vec![x.0.to_string()]]),
  "ver" => shown::<SourceVersion>(SourceVersion(num(&a[0])), SourceVersion(num(&b[0])), |x| vec![vec![x.0.to_string()]]),
  "member" => shown::<MemberIndex>(MemberIndex(num(&a[0])), MemberIndex(num(&b[0])), |x| vec![vec![x.0.to_string()]]),
  "srclang" => shown::<SourceLanguage>(b_srclang(&a), b_srclang(&b), |x| vec![p_srclang(x)]),
  "pair" => shown::<PhiArg>(b_phi(&a).pop().unwrap(), b_phi(&b).pop().unwrap(), |x| vec![vec![x.variable.0.to_string(), x.parent.0.to_string()]]),
  "weightpair" => shown::<BranchWeights>(b_weights(&a).unwrap(), b_weights(&b).unwrap(), |x| vec![vec![x.true_weight.to_string(), x.false_weight.to_string()]]),
  "line" => shown::<Line>(Line(num(&a[0])), Line(num(&b[0])), |x| vec![vec![x.0.to_string()]]),
  "column" => shown::<Column>(Column(num(&a[0])), Column(num(&b[0])), |x| vec![vec![x.0.to_string()]]),
  "enum:SamplerAddressingMode" => shown::<SamplerAddressingMode>(b_SamplerAddressingMode(&a[0]), b_SamplerAddressingMode(&b[0]), |x| vec![vec![p_SamplerAddressingMode(x)]]),
  "enum:SamplerParam" => shown::<SamplerParam>(b_SamplerParam(&a[0]), b_SamplerParam(&b[0]), |x| vec![vec![p_SamplerParam(x)]]),
  "enum:SamplerFilterMode" => shown::<SamplerFilterMode>(b_SamplerFilterMode(&a[0]), b_SamplerFilterMode(&b[0]), |x| vec![vec![p_SamplerFilterMode(x)]]),
  "enum:AddressingModel" => shown::<AddressingModel>(b_AddressingModel(&a[0]), b_AddressingModel(&b[0]), |x| vec![vec![p_AddressingModel(x)]]),
  "enum:MemoryModel" => shown::<MemoryModel>(b_MemoryModel(&a[0]), b_MemoryModel(&b[0]), |x| vec![vec![p_MemoryModel(x)]]),
  "enum:ExecutionModel" => shown::<ExecutionModel>(b_ExecutionModel(&a[0]), b_ExecutionModel(&b[0]), |x| vec![vec![p_ExecutionModel(x)]]),
  "enum:Capability" => shown::<Capability>(b_Capability(&a[0]), b_Capability(&b[0]), |x| vec![vec![p_Capability(x)]]),
  "enum:Signedness" => shown::<Signedness>(b_Signedness(&a[0]), b_Signedness(&b[0]), |x| vec![vec![p_Signedness(x)]]),
  "enum:Dim" => shown::<Dim>(b_Dim(&a[0]), b_Dim(&b[0]), |x| vec![vec![p_Dim(x)]]),
  "enum:DepthStatus" => shown::<DepthStatus>(b_DepthStatus(&a[0]), b_DepthStatus(&b[0]), |x| vec![vec![p_DepthStatus(x)]]),
  "enum:Arrayed" => shown::<Arrayed>(b_Arrayed(&a[0]), b_Arrayed(&b[0]), |x| vec![vec![p_Arrayed(x)]]),
  "enum:MS" => shown::<MS>(b_MS(&a[0]), b_MS(&b[0]), |x| vec![vec![p_MS(x)]]),
  "enum:SampledStatus" => shown::<SampledStatus>(b_SampledStatus(&a[0]), b_SampledStatus(&b[0]), |x| vec![vec![p_SampledStatus(x)]]),
  "enum:ImageFormat" => shown::<ImageFormat>(b_ImageFormat(&a[0]), b_ImageFormat(&b[0]), |x| vec![vec![p_ImageFormat(x)]]),
  "enum:AccessQualifier" => shown::<AccessQualifier>(b_AccessQualifier(&a[0]), b_AccessQualifier(&b[0]), |x| vec![vec![p_AccessQualifier(x)]]),
  "enum:StorageClass" => shown::<StorageClass>(b_StorageClass(&a[0]), b_StorageClass(&b[0]), |x| vec![vec![p_StorageClass(x)]]),
  "enum:BuiltIn" => shown::<BuiltIn>(b_BuiltIn(&a[0]), b_BuiltIn(&b[0]), |x| vec![vec![p_BuiltIn(x)]]),
  "enum:FunctionParameterAttribute" => shown::<FunctionParameterAttribute>(b_FunctionParameterAttribute(&a[0]), b_FunctionParameterAttribute(&b[0]), |x| vec![vec![p_FunctionParameterAttribute(x)]]),
  "enum:FpRoundingMode" => shown::<FpRoundingMode>(b_FpRoundingMode(&a[0]), b_FpRoundingMode(&b[0]), |x| vec![vec![p_FpRoundingMode(x)]]),
  "enum:LinkageType" => shown::<LinkageType>(b_LinkageType(&a[0]), b_LinkageType(&b[0]), |x| vec![vec![p_LinkageType(x)]]),
  "mask:FunctionControl" => shown::<FunctionControl>(b_FunctionControl(&a), b_FunctionControl(&b), |x| vec![p_FunctionControl(x)]),
  "mask:MemoryAccess" => shown::<MemoryAccess>(b_MemoryAccess(&a), b_MemoryAccess(&b), |x| vec![p_MemoryAccess(x)]),
  "mask:LoopControl" => shown::<LoopControl>(b_LoopControl(&a), b_LoopControl(&b), |x| vec![p_LoopControl(x)]),
  "mask:SelectionControl" => shown::<SelectionControl>(b_SelectionControl(&a), b_SelectionControl(&b), |x| vec![p_SelectionControl(x)]),
  "mask:FpFastMathMode" => shown::<FpFastMathMode>(b_FpFastMathMode(&a), b_FpFastMathMode(&b), |x| vec![p_FpFastMathMode(x)]),
  "comp:ExecutionMode" => shown::<ExecutionMode>(b_ExecutionMode(&a), b_ExecutionMode(&b), |x| vec![p_ExecutionMode(x)]),
  "comp:Decoration" => shown::<Decoration>(b_Decoration(&a), b_Decoration(&b), |x| vec![p_Decoration(x)]),
  s => panic!("HARNESS bad operand kind {}", s) } }
pub const SETS: &[(&str, &str, &str)] = &[
  ("G", "GLSL.std.450", "G"),
  ("A", "T.a", "A"),
  ("A2", "T.a", "A2"),
  ("B", "T.b", "B"),
  ("P", "GLSL.std.45", "P"),
  ("Q", "GLSL.std.4500", "Q"),
  ("E", "", "E"),
  ("L", "glsl.STD.450", "L"),
  ("U", "café", "U"),
];
