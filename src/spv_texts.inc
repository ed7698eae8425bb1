R"(OpCapability Shader
%1 = OpExtInstImport "GLSL.std.450"
OpMemoryModel Logical GLSL450
OpEntryPoint Fragment %4 "main" %9 %11 %22
OpExecutionMode %4 OriginUpperLeft
OpSource GLSL 450
OpName %4 "main"
OpName %9 "outColor"
OpName %11 "inColor"
OpName %20 "Block"
OpMemberName %20 0 "a"
OpMemberName %20 1 "bb"
OpMemberName %20 2 "arr"
OpDecorate %9 Location 0
OpDecorate %11 Location 1
OpMemberDecorate %20 0 Offset 0
OpMemberDecorate %20 1 Offset 16
OpMemberDecorate %20 2 Offset 32
OpMemberDecorate %20 1 ColMajor
OpMemberDecorate %20 1 MatrixStride 16
OpDecorate %20 Block
OpDecorate %19 ArrayStride 16
OpDecorate %22 DescriptorSet 1
OpDecorate %22 Binding 3
%2 = OpTypeVoid
%3 = OpTypeFunction %2
%6 = OpTypeFloat 32
%7 = OpTypeVector %6 4
%8 = OpTypePointer Output %7
%9 = OpVariable %8 Output
%10 = OpTypePointer Input %7
%11 = OpVariable %10 Input
%12 = OpTypeInt 32 1
%13 = OpConstant %12 1
%14 = OpConstant %6 0.5
%15 = OpConstantComposite %7 %14 %14 %14 %14
%16 = OpTypeInt 32 0
%17 = OpConstant %16 3
%18 = OpTypeMatrix %7 3
%19 = OpTypeArray %7 %17
%20 = OpTypeStruct %6 %7 %19
%21 = OpTypePointer Uniform %20
%22 = OpVariable %21 Uniform
%23 = OpTypePointer Uniform %7
%24 = OpTypeBool
%4 = OpFunction %2 None %3
%5 = OpLabel
%30 = OpLoad %7 %11
%31 = OpAccessChain %23 %22 %13
%32 = OpLoad %7 %31
%33 = OpFAdd %7 %30 %32
%34 = OpExtInst %7 %1 FMax %33 %15
%35 = OpCompositeExtract %6 %34 0
%36 = OpFOrdGreaterThan %24 %35 %14
OpSelectionMerge %40 None
OpBranchConditional %36 %38 %39
%38 = OpLabel
OpStore %9 %34
OpBranch %40
%39 = OpLabel
OpStore %9 %15
OpBranch %40
%40 = OpLabel
OpReturn
OpFunctionEnd
)" ,
R"(OpCapability Shader
OpCapability Int64
OpCapability Float64
OpCapability Int16
OpExtension "SPV_KHR_storage_buffer_storage_class"
OpMemoryModel Logical GLSL450
OpEntryPoint GLCompute %main "main" %buf
OpExecutionMode %main LocalSize 8 4 2
%file = OpString "shader with a rather long file name.comp"
OpSource GLSL 450 %file "void main() {}"
OpSourceContinued " // more"
OpSourceExtension "GL_EXT_something"
OpName %main "main"
OpName %sel "loopCounter"
OpModuleProcessed "tool one"
OpModuleProcessed ""
OpDecorate %scid SpecId 7
OpDecorate %buf DescriptorSet 0
OpDecorate %buf Binding 0
OpDecorate %st Block
OpMemberDecorate %st 0 Offset 0
OpDecorate %ra ArrayStride 8
OpDecorate %wg BuiltIn WorkgroupSize
%void = OpTypeVoid
%fn = OpTypeFunction %void
%i64 = OpTypeInt 64 1
%u32 = OpTypeInt 32 0
%i16 = OpTypeInt 16 1
%f64 = OpTypeFloat 64
%bool = OpTypeBool
%v3 = OpTypeVector %u32 3
%c8 = OpSpecConstant %u32 8
%c4 = OpConstant %u32 4
%c2 = OpConstant %u32 2
%wg = OpSpecConstantComposite %v3 %c8 %c4 %c2
%scid = OpSpecConstant %u32 11
%sum = OpSpecConstantOp %u32 IAdd %scid %c4
%cmp = OpSpecConstantOp %bool UGreaterThan %sum %c2
%ext = OpSpecConstantOp %u32 CompositeExtract %wg 1
%selc = OpSpecConstantOp %u32 Select %cmp %c2 %c4
%arr = OpTypeArray %f64 %sum
%parr = OpTypePointer Private %arr
%garr = OpVariable %parr Private
%ra = OpTypeRuntimeArray %i64
%st = OpTypeStruct %ra
%pst = OpTypePointer StorageBuffer %st
%buf = OpVariable %pst StorageBuffer
%pi64 = OpTypePointer StorageBuffer %i64
%big = OpConstant %i64 -81985529216486896
%d = OpConstant %f64 3.25e100
%ms = OpConstant %i16 -5
%zero = OpConstant %u32 0
%one = OpConstant %u32 1
%z64 = OpConstant %i64 0
%und = OpUndef %u32
%vund = OpConstantComposite %v3 %und %zero %und
%nul = OpConstantNull %arr
%main = OpFunction %void None %fn
%l0 = OpLabel
%pf = OpAccessChain %pi64 %buf %zero %one
OpBranch %head
%head = OpLabel
%sel = OpPhi %i64 %z64 %l0 %inc %cont
OpLoopMerge %exit %cont DontUnroll
OpBranch %body
%body = OpLabel
OpSelectionMerge %sm DontFlatten
OpSwitch %sel %def 0 %a 8589934593 %b -3 %a
%a = OpLabel
OpStore %pf %big Aligned 8
OpBranch %sm
%b = OpLabel
%ld = OpLoad %i64 %pf Volatile|Aligned 16
OpBranch %def
%def = OpLabel
OpBranch %sm
%sm = OpLabel
%lt = OpSLessThan %bool %sel %big
OpBranchConditional %lt %cont %exit
%cont = OpLabel
%inc = OpIAdd %i64 %sel %big
OpBranch %head
%exit = OpLabel
OpLine %file 12 34
OpReturn
OpFunctionEnd
)",
R"(OpCapability Kernel
OpCapability Addresses
OpCapability Linkage
OpCapability Int64
OpCapability Vector16
%cl = OpExtInstImport "OpenCL.std"
OpMemoryModel Physical64 OpenCL
OpEntryPoint Kernel %k "kern"
OpExecutionMode %k VecTypeHint 0
OpSource OpenCL_C 200
OpName %k "kern"
OpName %p "p"
OpName %opq "opq"
OpDecorate %ext LinkageAttributes "external_function" Import
OpDecorate %def LinkageAttributes "exported" Export
OpDecorate %p FuncParamAttr NoAlias
OpDecorate %p Alignment 16
%void = OpTypeVoid
%u32 = OpTypeInt 32 0
%u64 = OpTypeInt 64 0
%f32 = OpTypeFloat 32
%v16 = OpTypeVector %f32 16
%v4 = OpTypeVector %f32 4
%opq = OpTypeOpaque "struct.some_opaque_type"
%ev = OpTypeEvent
%popq = OpTypePointer CrossWorkgroup %opq
%pf = OpTypePointer CrossWorkgroup %f32
%pv = OpTypePointer CrossWorkgroup %v4
%fne = OpTypeFunction %f32 %f32 %u32
%fnk = OpTypeFunction %void %pf %popq %u64
%c0 = OpConstant %u64 0
%c3 = OpConstant %u32 3
%nullp = OpConstantNull %pf
%ext = OpFunction %f32 Pure %fne
%ea = OpFunctionParameter %f32
%eb = OpFunctionParameter %u32
OpFunctionEnd
%def = OpFunction %f32 Inline|Const %fne
%da = OpFunctionParameter %f32
%db = OpFunctionParameter %u32
%dl = OpLabel
%dr = OpFunctionCall %f32 %ext %da %db
OpReturnValue %dr
OpFunctionEnd
%k = OpFunction %void None %fnk
%p = OpFunctionParameter %pf
%q = OpFunctionParameter %popq
%n = OpFunctionParameter %u64
%kl = OpLabel
%ld = OpExtInst %v4 %cl vloadn %c0 %p 4
%sq = OpExtInst %v4 %cl native_sqrt %ld
%st = OpExtInst %void %cl vstoren %sq %n %p
%x = OpLoad %f32 %p Aligned 4
%call = OpFunctionCall %f32 %def %x %c3
OpStore %p %call Aligned 4
OpReturn
OpFunctionEnd
)",
R"(OpCapability Shader
OpCapability ImageQuery
OpCapability Sampled1D
OpCapability StorageImageExtendedFormats
OpMemoryModel Logical GLSL450
OpEntryPoint Fragment %m1 "first" %in %out %tex %smp %img
OpEntryPoint Fragment %m2 "second entry point" %out %si
OpExecutionMode %m1 OriginUpperLeft
OpExecutionMode %m2 OriginUpperLeft
OpExecutionMode %m2 DepthReplacing
OpName %m1 "first"
OpName %helper "helper(vf2;"
OpName %tex "tex"
OpName %smp "smp"
OpName %si "combined"
OpDecorate %in Location 0
OpDecorate %in Flat
OpDecorate %out Location 0
OpDecorate %tex DescriptorSet 0
OpDecorate %tex Binding 1
OpDecorate %smp DescriptorSet 0
OpDecorate %smp Binding 1
OpDecorate %si DescriptorSet 2
OpDecorate %si Binding 0
OpDecorate %img DescriptorSet 2
OpDecorate %img Binding 1
OpDecorate %img NonReadable
%void = OpTypeVoid
%fn = OpTypeFunction %void
%f32 = OpTypeFloat 32
%i32 = OpTypeInt 32 1
%v2 = OpTypeVector %f32 2
%v4 = OpTypeVector %f32 4
%iv2 = OpTypeVector %i32 2
%pi = OpTypePointer Input %v2
%po = OpTypePointer Output %v4
%in = OpVariable %pi Input
%out = OpVariable %po Output
%t2 = OpTypeImage %f32 2D 0 0 0 1 Unknown
%t1 = OpTypeImage %i32 2D 0 0 0 2 Rg32i
%ts = OpTypeSampler
%tsi = OpTypeSampledImage %t2
%pt = OpTypePointer UniformConstant %t2
%ps = OpTypePointer UniformConstant %ts
%psi = OpTypePointer UniformConstant %tsi
%pim = OpTypePointer UniformConstant %t1
%tex = OpVariable %pt UniformConstant
%smp = OpVariable %ps UniformConstant
%si = OpVariable %psi UniformConstant
%img = OpVariable %pim UniformConstant
%hfn = OpTypeFunction %v4 %v2
%c0 = OpConstant %i32 0
%c1 = OpConstant %i32 1
%cv = OpConstantComposite %iv2 %c0 %c1
%fl = OpConstant %f32 -0.75
%fv = OpConstantComposite %v2 %fl %fl
%i4 = OpTypeVector %i32 4
%helper = OpFunction %v4 None %hfn
%uv = OpFunctionParameter %v2
%hl = OpLabel
%a = OpLoad %t2 %tex
%b = OpLoad %ts %smp
%c = OpSampledImage %tsi %a %b
%d = OpImageSampleImplicitLod %v4 %c %uv Bias|ConstOffset %fl %cv
%e = OpImageSampleExplicitLod %v4 %c %uv Grad %fv %fv
%sum = OpFAdd %v4 %d %e
%sh = OpVectorShuffle %v4 %sum %e 0 5 2 0xffffffff
OpReturnValue %sh
OpFunctionEnd
%m2 = OpFunction %void None %fn
%l2 = OpLabel
%l2u = OpLoad %tsi %si
%l2r = OpImageSampleImplicitLod %v4 %l2u %fv
OpStore %out %l2r
OpKill
OpFunctionEnd
%m1 = OpFunction %void None %fn
%l1 = OpLabel
%u = OpLoad %v2 %in
%r = OpFunctionCall %v4 %helper %u
OpStore %out %r
%im = OpLoad %t1 %img
%zz = OpConvertFToS %iv2 %u
%tx = OpImageRead %i4 %im %zz
OpImageWrite %im %zz %tx
OpReturn
OpFunctionEnd
)",
R"(OpCapability Shader
OpCapability PhysicalStorageBufferAddresses
OpCapability VulkanMemoryModel
OpExtension "SPV_KHR_physical_storage_buffer"
OpMemoryModel PhysicalStorageBuffer64 Vulkan
OpEntryPoint GLCompute %main "main" %push
OpEntryPoint GLCompute %main "alias" %push
OpExecutionMode %main LocalSize 1 1 1
OpName %Node "Node"
OpMemberName %Node 0 "value"
OpMemberName %Node 1 "next"
OpMemberDecorate %Node 0 Offset 0
OpMemberDecorate %Node 1 Offset 8
OpDecorate %Node Block
OpMemberDecorate %PC 0 Offset 0
OpDecorate %PC Block
OpTypeForwardPointer %pNode PhysicalStorageBuffer
%void = OpTypeVoid
%fn = OpTypeFunction %void
%u32 = OpTypeInt 32 0
%i32 = OpTypeInt 32 1
%Node = OpTypeStruct %u32 %pNode
%pNode = OpTypePointer PhysicalStorageBuffer %Node
%PC = OpTypeStruct %pNode
%pPC = OpTypePointer PushConstant %PC
%push = OpVariable %pPC PushConstant
%ppN = OpTypePointer PushConstant %pNode
%ppPN = OpTypePointer PhysicalStorageBuffer %pNode
%c0 = OpConstant %i32 0
%c1 = OpConstant %i32 1
%main = OpFunction %void None %fn
%l = OpLabel
%a = OpAccessChain %ppN %push %c0
%n = OpLoad %pNode %a
%b = OpAccessChain %ppPN %n %c1
%n2 = OpLoad %pNode %b Aligned 8
OpStore %b %n Aligned 8
OpReturn
OpFunctionEnd
)",
R"(OpCapability Shader
OpExtension "SPV_KHR_non_semantic_info"
%ns = OpExtInstImport "NonSemantic.Testing.Set"
%ns2 = OpExtInstImport "NonSemantic.Testing.Set.Two"
OpMemoryModel Logical GLSL450
OpEntryPoint Vertex %main "main"
%str = OpString ""
%void = OpTypeVoid
%fn = OpTypeFunction %void
%info = OpExtInst %void %ns 3 %str
%info2 = OpExtInst %void %ns2 4 %info %str
%main = OpFunction %void None %fn
%l = OpLabel
%in = OpExtInst %void %ns 5 %info2
OpNop
OpUnreachable
OpFunctionEnd
)",
// OpLine between blocks and before parameters: no place for it in Function
R"(OpCapability Shader
OpMemoryModel Logical GLSL450
OpEntryPoint Vertex %main "main"
%str = OpString "lines between blocks"
%void = OpTypeVoid
%fn = OpTypeFunction %void
%main = OpFunction %void None %fn
%l = OpLabel
OpBranch %l2
OpLine %str 1 1
%l2 = OpLabel
OpReturn
OpFunctionEnd
)",
