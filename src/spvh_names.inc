// generated by tools/gen_spvh.py
E(ImageOperandsMask, MaskNone, 0x0u)
E(ImageOperandsMask, Bias, 0x1u)
E(ImageOperandsShift, Bias, 0u)
E(ImageOperandsMask, Lod, 0x2u)
E(ImageOperandsShift, Lod, 1u)
E(ImageOperandsMask, Grad, 0x4u)
E(ImageOperandsShift, Grad, 2u)
E(ImageOperandsMask, ConstOffset, 0x8u)
E(ImageOperandsShift, ConstOffset, 3u)
E(ImageOperandsMask, Offset, 0x10u)
E(ImageOperandsShift, Offset, 4u)
E(ImageOperandsMask, ConstOffsets, 0x20u)
E(ImageOperandsShift, ConstOffsets, 5u)
E(ImageOperandsMask, Sample, 0x40u)
E(ImageOperandsShift, Sample, 6u)
E(ImageOperandsMask, MinLod, 0x80u)
E(ImageOperandsShift, MinLod, 7u)
E(ImageOperandsMask, MakeTexelAvailable, 0x100u)
E(ImageOperandsShift, MakeTexelAvailable, 8u)
E(ImageOperandsMask, MakeTexelAvailableKHR, 0x100u)
E(ImageOperandsShift, MakeTexelAvailableKHR, 8u)
E(ImageOperandsMask, MakeTexelVisible, 0x200u)
E(ImageOperandsShift, MakeTexelVisible, 9u)
E(ImageOperandsMask, MakeTexelVisibleKHR, 0x200u)
E(ImageOperandsShift, MakeTexelVisibleKHR, 9u)
E(ImageOperandsMask, NonPrivateTexel, 0x400u)
E(ImageOperandsShift, NonPrivateTexel, 10u)
E(ImageOperandsMask, NonPrivateTexelKHR, 0x400u)
E(ImageOperandsShift, NonPrivateTexelKHR, 10u)
E(ImageOperandsMask, VolatileTexel, 0x800u)
E(ImageOperandsShift, VolatileTexel, 11u)
E(ImageOperandsMask, VolatileTexelKHR, 0x800u)
E(ImageOperandsShift, VolatileTexelKHR, 11u)
E(ImageOperandsMask, SignExtend, 0x1000u)
E(ImageOperandsShift, SignExtend, 12u)
E(ImageOperandsMask, ZeroExtend, 0x2000u)
E(ImageOperandsShift, ZeroExtend, 13u)
E(ImageOperandsMask, Nontemporal, 0x4000u)
E(ImageOperandsShift, Nontemporal, 14u)
E(ImageOperandsMask, Offsets, 0x10000u)
E(ImageOperandsShift, Offsets, 16u)
E(FPFastMathModeMask, MaskNone, 0x0u)
E(FPFastMathModeMask, NotNaN, 0x1u)
E(FPFastMathModeShift, NotNaN, 0u)
E(FPFastMathModeMask, NotInf, 0x2u)
E(FPFastMathModeShift, NotInf, 1u)
E(FPFastMathModeMask, NSZ, 0x4u)
E(FPFastMathModeShift, NSZ, 2u)
E(FPFastMathModeMask, AllowRecip, 0x8u)
E(FPFastMathModeShift, AllowRecip, 3u)
E(FPFastMathModeMask, Fast, 0x10u)
E(FPFastMathModeShift, Fast, 4u)
E(FPFastMathModeMask, AllowContractFastINTEL, 0x10000u)
E(FPFastMathModeShift, AllowContractFastINTEL, 16u)
E(FPFastMathModeMask, AllowReassocINTEL, 0x20000u)
E(FPFastMathModeShift, AllowReassocINTEL, 17u)
E(SelectionControlMask, MaskNone, 0x0u)
E(SelectionControlMask, Flatten, 0x1u)
E(SelectionControlShift, Flatten, 0u)
E(SelectionControlMask, DontFlatten, 0x2u)
E(SelectionControlShift, DontFlatten, 1u)
E(LoopControlMask, MaskNone, 0x0u)
E(LoopControlMask, Unroll, 0x1u)
E(LoopControlShift, Unroll, 0u)
E(LoopControlMask, DontUnroll, 0x2u)
E(LoopControlShift, DontUnroll, 1u)
E(LoopControlMask, DependencyInfinite, 0x4u)
E(LoopControlShift, DependencyInfinite, 2u)
E(LoopControlMask, DependencyLength, 0x8u)
E(LoopControlShift, DependencyLength, 3u)
E(LoopControlMask, MinIterations, 0x10u)
E(LoopControlShift, MinIterations, 4u)
E(LoopControlMask, MaxIterations, 0x20u)
E(LoopControlShift, MaxIterations, 5u)
E(LoopControlMask, IterationMultiple, 0x40u)
E(LoopControlShift, IterationMultiple, 6u)
E(LoopControlMask, PeelCount, 0x80u)
E(LoopControlShift, PeelCount, 7u)
E(LoopControlMask, PartialCount, 0x100u)
E(LoopControlShift, PartialCount, 8u)
E(LoopControlMask, InitiationIntervalINTEL, 0x10000u)
E(LoopControlShift, InitiationIntervalINTEL, 16u)
E(LoopControlMask, MaxConcurrencyINTEL, 0x20000u)
E(LoopControlShift, MaxConcurrencyINTEL, 17u)
E(LoopControlMask, DependencyArrayINTEL, 0x40000u)
E(LoopControlShift, DependencyArrayINTEL, 18u)
E(LoopControlMask, PipelineEnableINTEL, 0x80000u)
E(LoopControlShift, PipelineEnableINTEL, 19u)
E(LoopControlMask, LoopCoalesceINTEL, 0x100000u)
E(LoopControlShift, LoopCoalesceINTEL, 20u)
E(LoopControlMask, MaxInterleavingINTEL, 0x200000u)
E(LoopControlShift, MaxInterleavingINTEL, 21u)
E(LoopControlMask, SpeculatedIterationsINTEL, 0x400000u)
E(LoopControlShift, SpeculatedIterationsINTEL, 22u)
E(LoopControlMask, NoFusionINTEL, 0x800000u)
E(LoopControlShift, NoFusionINTEL, 23u)
E(LoopControlMask, LoopCountINTEL, 0x1000000u)
E(LoopControlShift, LoopCountINTEL, 24u)
E(LoopControlMask, MaxReinvocationDelayINTEL, 0x2000000u)
E(LoopControlShift, MaxReinvocationDelayINTEL, 25u)
E(FunctionControlMask, MaskNone, 0x0u)
E(FunctionControlMask, Inline, 0x1u)
E(FunctionControlShift, Inline, 0u)
E(FunctionControlMask, DontInline, 0x2u)
E(FunctionControlShift, DontInline, 1u)
E(FunctionControlMask, Pure, 0x4u)
E(FunctionControlShift, Pure, 2u)
E(FunctionControlMask, Const, 0x8u)
E(FunctionControlShift, Const, 3u)
E(FunctionControlMask, OptNoneINTEL, 0x10000u)
E(FunctionControlShift, OptNoneINTEL, 16u)
E(MemorySemanticsMask, Relaxed, 0x0u)
E(MemorySemanticsMask, MaskNone, 0x0u)
E(MemorySemanticsMask, Acquire, 0x2u)
E(MemorySemanticsShift, Acquire, 1u)
E(MemorySemanticsMask, Release, 0x4u)
E(MemorySemanticsShift, Release, 2u)
E(MemorySemanticsMask, AcquireRelease, 0x8u)
E(MemorySemanticsShift, AcquireRelease, 3u)
E(MemorySemanticsMask, SequentiallyConsistent, 0x10u)
E(MemorySemanticsShift, SequentiallyConsistent, 4u)
E(MemorySemanticsMask, UniformMemory, 0x40u)
E(MemorySemanticsShift, UniformMemory, 6u)
E(MemorySemanticsMask, SubgroupMemory, 0x80u)
E(MemorySemanticsShift, SubgroupMemory, 7u)
E(MemorySemanticsMask, WorkgroupMemory, 0x100u)
E(MemorySemanticsShift, WorkgroupMemory, 8u)
E(MemorySemanticsMask, CrossWorkgroupMemory, 0x200u)
E(MemorySemanticsShift, CrossWorkgroupMemory, 9u)
E(MemorySemanticsMask, AtomicCounterMemory, 0x400u)
E(MemorySemanticsShift, AtomicCounterMemory, 10u)
E(MemorySemanticsMask, ImageMemory, 0x800u)
E(MemorySemanticsShift, ImageMemory, 11u)
E(MemorySemanticsMask, OutputMemory, 0x1000u)
E(MemorySemanticsShift, OutputMemory, 12u)
E(MemorySemanticsMask, OutputMemoryKHR, 0x1000u)
E(MemorySemanticsShift, OutputMemoryKHR, 12u)
E(MemorySemanticsMask, MakeAvailable, 0x2000u)
E(MemorySemanticsShift, MakeAvailable, 13u)
E(MemorySemanticsMask, MakeAvailableKHR, 0x2000u)
E(MemorySemanticsShift, MakeAvailableKHR, 13u)
E(MemorySemanticsMask, MakeVisible, 0x4000u)
E(MemorySemanticsShift, MakeVisible, 14u)
E(MemorySemanticsMask, MakeVisibleKHR, 0x4000u)
E(MemorySemanticsShift, MakeVisibleKHR, 14u)
E(MemorySemanticsMask, Volatile, 0x8000u)
E(MemorySemanticsShift, Volatile, 15u)
E(MemoryAccessMask, MaskNone, 0x0u)
E(MemoryAccessMask, Volatile, 0x1u)
E(MemoryAccessShift, Volatile, 0u)
E(MemoryAccessMask, Aligned, 0x2u)
E(MemoryAccessShift, Aligned, 1u)
E(MemoryAccessMask, Nontemporal, 0x4u)
E(MemoryAccessShift, Nontemporal, 2u)
E(MemoryAccessMask, MakePointerAvailable, 0x8u)
E(MemoryAccessShift, MakePointerAvailable, 3u)
E(MemoryAccessMask, MakePointerAvailableKHR, 0x8u)
E(MemoryAccessShift, MakePointerAvailableKHR, 3u)
E(MemoryAccessMask, MakePointerVisible, 0x10u)
E(MemoryAccessShift, MakePointerVisible, 4u)
E(MemoryAccessMask, MakePointerVisibleKHR, 0x10u)
E(MemoryAccessShift, MakePointerVisibleKHR, 4u)
E(MemoryAccessMask, NonPrivatePointer, 0x20u)
E(MemoryAccessShift, NonPrivatePointer, 5u)
E(MemoryAccessMask, NonPrivatePointerKHR, 0x20u)
E(MemoryAccessShift, NonPrivatePointerKHR, 5u)
E(MemoryAccessMask, AliasScopeINTELMask, 0x10000u)
E(MemoryAccessShift, AliasScopeINTELMask, 16u)
E(MemoryAccessMask, NoAliasINTELMask, 0x20000u)
E(MemoryAccessShift, NoAliasINTELMask, 17u)
E(KernelProfilingInfoMask, MaskNone, 0x0u)
E(KernelProfilingInfoMask, CmdExecTime, 0x1u)
E(KernelProfilingInfoShift, CmdExecTime, 0u)
E(RayFlagsMask, NoneKHR, 0x0u)
E(RayFlagsMask, OpaqueKHR, 0x1u)
E(RayFlagsShift, OpaqueKHR, 0u)
E(RayFlagsMask, NoOpaqueKHR, 0x2u)
E(RayFlagsShift, NoOpaqueKHR, 1u)
E(RayFlagsMask, TerminateOnFirstHitKHR, 0x4u)
E(RayFlagsShift, TerminateOnFirstHitKHR, 2u)
E(RayFlagsMask, SkipClosestHitShaderKHR, 0x8u)
E(RayFlagsShift, SkipClosestHitShaderKHR, 3u)
E(RayFlagsMask, CullBackFacingTrianglesKHR, 0x10u)
E(RayFlagsShift, CullBackFacingTrianglesKHR, 4u)
E(RayFlagsMask, CullFrontFacingTrianglesKHR, 0x20u)
E(RayFlagsShift, CullFrontFacingTrianglesKHR, 5u)
E(RayFlagsMask, CullOpaqueKHR, 0x40u)
E(RayFlagsShift, CullOpaqueKHR, 6u)
E(RayFlagsMask, CullNoOpaqueKHR, 0x80u)
E(RayFlagsShift, CullNoOpaqueKHR, 7u)
E(RayFlagsMask, SkipTrianglesKHR, 0x100u)
E(RayFlagsShift, SkipTrianglesKHR, 8u)
E(RayFlagsMask, SkipAABBsKHR, 0x200u)
E(RayFlagsShift, SkipAABBsKHR, 9u)
E(RayFlagsMask, ForceOpacityMicromap2StateEXT, 0x400u)
E(RayFlagsShift, ForceOpacityMicromap2StateEXT, 10u)
E(FragmentShadingRateMask, Vertical2Pixels, 0x1u)
E(FragmentShadingRateShift, Vertical2Pixels, 0u)
E(FragmentShadingRateMask, Vertical4Pixels, 0x2u)
E(FragmentShadingRateShift, Vertical4Pixels, 1u)
E(FragmentShadingRateMask, Horizontal2Pixels, 0x4u)
E(FragmentShadingRateShift, Horizontal2Pixels, 2u)
E(FragmentShadingRateMask, Horizontal4Pixels, 0x8u)
E(FragmentShadingRateShift, Horizontal4Pixels, 3u)
E(SourceLanguage, Unknown, 0x0u)
E(SourceLanguage, ESSL, 0x1u)
E(SourceLanguage, GLSL, 0x2u)
E(SourceLanguage, OpenCL_C, 0x3u)
E(SourceLanguage, OpenCL_CPP, 0x4u)
E(SourceLanguage, HLSL, 0x5u)
E(SourceLanguage, CPP_for_OpenCL, 0x6u)
E(SourceLanguage, SYCL, 0x7u)
E(SourceLanguage, HERO_C, 0x8u)
E(SourceLanguage, NZSL, 0x9u)
E(SourceLanguage, WGSL, 0xau)
E(ExecutionModel, Vertex, 0x0u)
E(ExecutionModel, TessellationControl, 0x1u)
E(ExecutionModel, TessellationEvaluation, 0x2u)
E(ExecutionModel, Geometry, 0x3u)
E(ExecutionModel, Fragment, 0x4u)
E(ExecutionModel, GLCompute, 0x5u)
E(ExecutionModel, Kernel, 0x6u)
E(ExecutionModel, TaskNV, 0x1493u)
E(ExecutionModel, MeshNV, 0x1494u)
E(ExecutionModel, RayGenerationNV, 0x14c1u)
E(ExecutionModel, RayGenerationKHR, 0x14c1u)
E(ExecutionModel, IntersectionNV, 0x14c2u)
E(ExecutionModel, IntersectionKHR, 0x14c2u)
E(ExecutionModel, AnyHitNV, 0x14c3u)
E(ExecutionModel, AnyHitKHR, 0x14c3u)
E(ExecutionModel, ClosestHitNV, 0x14c4u)
E(ExecutionModel, ClosestHitKHR, 0x14c4u)
E(ExecutionModel, MissNV, 0x14c5u)
E(ExecutionModel, MissKHR, 0x14c5u)
E(ExecutionModel, CallableNV, 0x14c6u)
E(ExecutionModel, CallableKHR, 0x14c6u)
E(ExecutionModel, TaskEXT, 0x14f4u)
E(ExecutionModel, MeshEXT, 0x14f5u)
E(AddressingModel, Logical, 0x0u)
E(AddressingModel, Physical32, 0x1u)
E(AddressingModel, Physical64, 0x2u)
E(AddressingModel, PhysicalStorageBuffer64, 0x14e4u)
E(AddressingModel, PhysicalStorageBuffer64EXT, 0x14e4u)
E(MemoryModel, Simple, 0x0u)
E(MemoryModel, GLSL450, 0x1u)
E(MemoryModel, OpenCL, 0x2u)
E(MemoryModel, Vulkan, 0x3u)
E(MemoryModel, VulkanKHR, 0x3u)
E(ExecutionMode, Invocations, 0x0u)
E(ExecutionMode, SpacingEqual, 0x1u)
E(ExecutionMode, SpacingFractionalEven, 0x2u)
E(ExecutionMode, SpacingFractionalOdd, 0x3u)
E(ExecutionMode, VertexOrderCw, 0x4u)
E(ExecutionMode, VertexOrderCcw, 0x5u)
E(ExecutionMode, PixelCenterInteger, 0x6u)
E(ExecutionMode, OriginUpperLeft, 0x7u)
E(ExecutionMode, OriginLowerLeft, 0x8u)
E(ExecutionMode, EarlyFragmentTests, 0x9u)
E(ExecutionMode, PointMode, 0xau)
E(ExecutionMode, Xfb, 0xbu)
E(ExecutionMode, DepthReplacing, 0xcu)
E(ExecutionMode, DepthGreater, 0xeu)
E(ExecutionMode, DepthLess, 0xfu)
E(ExecutionMode, DepthUnchanged, 0x10u)
E(ExecutionMode, LocalSize, 0x11u)
E(ExecutionMode, LocalSizeHint, 0x12u)
E(ExecutionMode, InputPoints, 0x13u)
E(ExecutionMode, InputLines, 0x14u)
E(ExecutionMode, InputLinesAdjacency, 0x15u)
E(ExecutionMode, Triangles, 0x16u)
E(ExecutionMode, InputTrianglesAdjacency, 0x17u)
E(ExecutionMode, Quads, 0x18u)
E(ExecutionMode, Isolines, 0x19u)
E(ExecutionMode, OutputVertices, 0x1au)
E(ExecutionMode, OutputPoints, 0x1bu)
E(ExecutionMode, OutputLineStrip, 0x1cu)
E(ExecutionMode, OutputTriangleStrip, 0x1du)
E(ExecutionMode, VecTypeHint, 0x1eu)
E(ExecutionMode, ContractionOff, 0x1fu)
E(ExecutionMode, Initializer, 0x21u)
E(ExecutionMode, Finalizer, 0x22u)
E(ExecutionMode, SubgroupSize, 0x23u)
E(ExecutionMode, SubgroupsPerWorkgroup, 0x24u)
E(ExecutionMode, SubgroupsPerWorkgroupId, 0x25u)
E(ExecutionMode, LocalSizeId, 0x26u)
E(ExecutionMode, LocalSizeHintId, 0x27u)
E(ExecutionMode, NonCoherentColorAttachmentReadEXT, 0x1049u)
E(ExecutionMode, NonCoherentDepthAttachmentReadEXT, 0x104au)
E(ExecutionMode, NonCoherentStencilAttachmentReadEXT, 0x104bu)
E(ExecutionMode, SubgroupUniformControlFlowKHR, 0x1145u)
E(ExecutionMode, PostDepthCoverage, 0x115eu)
E(ExecutionMode, DenormPreserve, 0x116bu)
E(ExecutionMode, DenormFlushToZero, 0x116cu)
E(ExecutionMode, SignedZeroInfNanPreserve, 0x116du)
E(ExecutionMode, RoundingModeRTE, 0x116eu)
E(ExecutionMode, RoundingModeRTZ, 0x116fu)
E(ExecutionMode, EarlyAndLateFragmentTestsAMD, 0x1399u)
E(ExecutionMode, StencilRefReplacingEXT, 0x13a3u)
E(ExecutionMode, CoalescingAMDX, 0x13cdu)
E(ExecutionMode, MaxNodeRecursionAMDX, 0x13cfu)
E(ExecutionMode, StaticNumWorkgroupsAMDX, 0x13d0u)
E(ExecutionMode, ShaderIndexAMDX, 0x13d1u)
E(ExecutionMode, MaxNumWorkgroupsAMDX, 0x13d5u)
E(ExecutionMode, StencilRefUnchangedFrontAMD, 0x13d7u)
E(ExecutionMode, StencilRefGreaterFrontAMD, 0x13d8u)
E(ExecutionMode, StencilRefLessFrontAMD, 0x13d9u)
E(ExecutionMode, StencilRefUnchangedBackAMD, 0x13dau)
E(ExecutionMode, StencilRefGreaterBackAMD, 0x13dbu)
E(ExecutionMode, StencilRefLessBackAMD, 0x13dcu)
E(ExecutionMode, OutputLinesNV, 0x1495u)
E(ExecutionMode, OutputLinesEXT, 0x1495u)
E(ExecutionMode, OutputPrimitivesNV, 0x1496u)
E(ExecutionMode, OutputPrimitivesEXT, 0x1496u)
E(ExecutionMode, DerivativeGroupQuadsNV, 0x14a9u)
E(ExecutionMode, DerivativeGroupLinearNV, 0x14aau)
E(ExecutionMode, OutputTrianglesNV, 0x14b2u)
E(ExecutionMode, OutputTrianglesEXT, 0x14b2u)
E(ExecutionMode, PixelInterlockOrderedEXT, 0x14f6u)
E(ExecutionMode, PixelInterlockUnorderedEXT, 0x14f7u)
E(ExecutionMode, SampleInterlockOrderedEXT, 0x14f8u)
E(ExecutionMode, SampleInterlockUnorderedEXT, 0x14f9u)
E(ExecutionMode, ShadingRateInterlockOrderedEXT, 0x14fau)
E(ExecutionMode, ShadingRateInterlockUnorderedEXT, 0x14fbu)
E(ExecutionMode, SharedLocalMemorySizeINTEL, 0x15f2u)
E(ExecutionMode, RoundingModeRTPINTEL, 0x15f4u)
E(ExecutionMode, RoundingModeRTNINTEL, 0x15f5u)
E(ExecutionMode, FloatingPointModeALTINTEL, 0x15f6u)
E(ExecutionMode, FloatingPointModeIEEEINTEL, 0x15f7u)
E(ExecutionMode, MaxWorkgroupSizeINTEL, 0x1705u)
E(ExecutionMode, MaxWorkDimINTEL, 0x1706u)
E(ExecutionMode, NoGlobalOffsetINTEL, 0x1707u)
E(ExecutionMode, NumSIMDWorkitemsINTEL, 0x1708u)
E(ExecutionMode, SchedulerTargetFmaxMhzINTEL, 0x170fu)
E(ExecutionMode, StreamingInterfaceINTEL, 0x180au)
E(ExecutionMode, RegisterMapInterfaceINTEL, 0x1810u)
E(ExecutionMode, NamedBarrierCountINTEL, 0x1911u)
E(StorageClass, UniformConstant, 0x0u)
E(StorageClass, Input, 0x1u)
E(StorageClass, Uniform, 0x2u)
E(StorageClass, Output, 0x3u)
E(StorageClass, Workgroup, 0x4u)
E(StorageClass, CrossWorkgroup, 0x5u)
E(StorageClass, Private, 0x6u)
E(StorageClass, Function, 0x7u)
E(StorageClass, Generic, 0x8u)
E(StorageClass, PushConstant, 0x9u)
E(StorageClass, AtomicCounter, 0xau)
E(StorageClass, Image, 0xbu)
E(StorageClass, StorageBuffer, 0xcu)
E(StorageClass, TileImageEXT, 0x104cu)
E(StorageClass, NodePayloadAMDX, 0x13ccu)
E(StorageClass, NodeOutputPayloadAMDX, 0x13d4u)
E(StorageClass, CallableDataNV, 0x14d0u)
E(StorageClass, CallableDataKHR, 0x14d0u)
E(StorageClass, IncomingCallableDataNV, 0x14d1u)
E(StorageClass, IncomingCallableDataKHR, 0x14d1u)
E(StorageClass, RayPayloadNV, 0x14dau)
E(StorageClass, RayPayloadKHR, 0x14dau)
E(StorageClass, HitAttributeNV, 0x14dbu)
E(StorageClass, HitAttributeKHR, 0x14dbu)
E(StorageClass, IncomingRayPayloadNV, 0x14deu)
E(StorageClass, IncomingRayPayloadKHR, 0x14deu)
E(StorageClass, ShaderRecordBufferNV, 0x14dfu)
E(StorageClass, ShaderRecordBufferKHR, 0x14dfu)
E(StorageClass, PhysicalStorageBuffer, 0x14e5u)
E(StorageClass, PhysicalStorageBufferEXT, 0x14e5u)
E(StorageClass, HitObjectAttributeNV, 0x1509u)
E(StorageClass, TaskPayloadWorkgroupEXT, 0x151au)
E(StorageClass, CodeSectionINTEL, 0x15e5u)
E(StorageClass, DeviceOnlyINTEL, 0x1730u)
E(StorageClass, HostOnlyINTEL, 0x1731u)
E(Dim, Dim1D, 0x0u)
E(Dim, Dim2D, 0x1u)
E(Dim, Dim3D, 0x2u)
E(Dim, Cube, 0x3u)
E(Dim, Rect, 0x4u)
E(Dim, Buffer, 0x5u)
E(Dim, SubpassData, 0x6u)
E(Dim, TileImageDataEXT, 0x104du)
E(SamplerAddressingMode, None, 0x0u)
E(SamplerAddressingMode, ClampToEdge, 0x1u)
E(SamplerAddressingMode, Clamp, 0x2u)
E(SamplerAddressingMode, Repeat, 0x3u)
E(SamplerAddressingMode, RepeatMirrored, 0x4u)
E(SamplerFilterMode, Nearest, 0x0u)
E(SamplerFilterMode, Linear, 0x1u)
E(ImageFormat, Unknown, 0x0u)
E(ImageFormat, Rgba32f, 0x1u)
E(ImageFormat, Rgba16f, 0x2u)
E(ImageFormat, R32f, 0x3u)
E(ImageFormat, Rgba8, 0x4u)
E(ImageFormat, Rgba8Snorm, 0x5u)
E(ImageFormat, Rg32f, 0x6u)
E(ImageFormat, Rg16f, 0x7u)
E(ImageFormat, R11fG11fB10f, 0x8u)
E(ImageFormat, R16f, 0x9u)
E(ImageFormat, Rgba16, 0xau)
E(ImageFormat, Rgb10A2, 0xbu)
E(ImageFormat, Rg16, 0xcu)
E(ImageFormat, Rg8, 0xdu)
E(ImageFormat, R16, 0xeu)
E(ImageFormat, R8, 0xfu)
E(ImageFormat, Rgba16Snorm, 0x10u)
E(ImageFormat, Rg16Snorm, 0x11u)
E(ImageFormat, Rg8Snorm, 0x12u)
E(ImageFormat, R16Snorm, 0x13u)
E(ImageFormat, R8Snorm, 0x14u)
E(ImageFormat, Rgba32i, 0x15u)
E(ImageFormat, Rgba16i, 0x16u)
E(ImageFormat, Rgba8i, 0x17u)
E(ImageFormat, R32i, 0x18u)
E(ImageFormat, Rg32i, 0x19u)
E(ImageFormat, Rg16i, 0x1au)
E(ImageFormat, Rg8i, 0x1bu)
E(ImageFormat, R16i, 0x1cu)
E(ImageFormat, R8i, 0x1du)
E(ImageFormat, Rgba32ui, 0x1eu)
E(ImageFormat, Rgba16ui, 0x1fu)
E(ImageFormat, Rgba8ui, 0x20u)
E(ImageFormat, R32ui, 0x21u)
E(ImageFormat, Rgb10a2ui, 0x22u)
E(ImageFormat, Rg32ui, 0x23u)
E(ImageFormat, Rg16ui, 0x24u)
E(ImageFormat, Rg8ui, 0x25u)
E(ImageFormat, R16ui, 0x26u)
E(ImageFormat, R8ui, 0x27u)
E(ImageFormat, R64ui, 0x28u)
E(ImageFormat, R64i, 0x29u)
E(ImageChannelOrder, R, 0x0u)
E(ImageChannelOrder, A, 0x1u)
E(ImageChannelOrder, RG, 0x2u)
E(ImageChannelOrder, RA, 0x3u)
E(ImageChannelOrder, RGB, 0x4u)
E(ImageChannelOrder, RGBA, 0x5u)
E(ImageChannelOrder, BGRA, 0x6u)
E(ImageChannelOrder, ARGB, 0x7u)
E(ImageChannelOrder, Intensity, 0x8u)
E(ImageChannelOrder, Luminance, 0x9u)
E(ImageChannelOrder, Rx, 0xau)
E(ImageChannelOrder, RGx, 0xbu)
E(ImageChannelOrder, RGBx, 0xcu)
E(ImageChannelOrder, Depth, 0xdu)
E(ImageChannelOrder, DepthStencil, 0xeu)
E(ImageChannelOrder, sRGB, 0xfu)
E(ImageChannelOrder, sRGBx, 0x10u)
E(ImageChannelOrder, sRGBA, 0x11u)
E(ImageChannelOrder, sBGRA, 0x12u)
E(ImageChannelOrder, ABGR, 0x13u)
E(ImageChannelDataType, SnormInt8, 0x0u)
E(ImageChannelDataType, SnormInt16, 0x1u)
E(ImageChannelDataType, UnormInt8, 0x2u)
E(ImageChannelDataType, UnormInt16, 0x3u)
E(ImageChannelDataType, UnormShort565, 0x4u)
E(ImageChannelDataType, UnormShort555, 0x5u)
E(ImageChannelDataType, UnormInt101010, 0x6u)
E(ImageChannelDataType, SignedInt8, 0x7u)
E(ImageChannelDataType, SignedInt16, 0x8u)
E(ImageChannelDataType, SignedInt32, 0x9u)
E(ImageChannelDataType, UnsignedInt8, 0xau)
E(ImageChannelDataType, UnsignedInt16, 0xbu)
E(ImageChannelDataType, UnsignedInt32, 0xcu)
E(ImageChannelDataType, HalfFloat, 0xdu)
E(ImageChannelDataType, Float, 0xeu)
E(ImageChannelDataType, UnormInt24, 0xfu)
E(ImageChannelDataType, UnormInt101010_2, 0x10u)
E(ImageChannelDataType, UnsignedIntRaw10EXT, 0x13u)
E(ImageChannelDataType, UnsignedIntRaw12EXT, 0x14u)
E(FPRoundingMode, RTE, 0x0u)
E(FPRoundingMode, RTZ, 0x1u)
E(FPRoundingMode, RTP, 0x2u)
E(FPRoundingMode, RTN, 0x3u)
E(FPDenormMode, Preserve, 0x0u)
E(FPDenormMode, FlushToZero, 0x1u)
E(QuantizationModes, TRN, 0x0u)
E(QuantizationModes, TRN_ZERO, 0x1u)
E(QuantizationModes, RND, 0x2u)
E(QuantizationModes, RND_ZERO, 0x3u)
E(QuantizationModes, RND_INF, 0x4u)
E(QuantizationModes, RND_MIN_INF, 0x5u)
E(QuantizationModes, RND_CONV, 0x6u)
E(QuantizationModes, RND_CONV_ODD, 0x7u)
E(FPOperationMode, IEEE, 0x0u)
E(FPOperationMode, ALT, 0x1u)
E(OverflowModes, WRAP, 0x0u)
E(OverflowModes, SAT, 0x1u)
E(OverflowModes, SAT_ZERO, 0x2u)
E(OverflowModes, SAT_SYM, 0x3u)
E(LinkageType, Export, 0x0u)
E(LinkageType, Import, 0x1u)
E(LinkageType, LinkOnceODR, 0x2u)
E(AccessQualifier, ReadOnly, 0x0u)
E(AccessQualifier, WriteOnly, 0x1u)
E(AccessQualifier, ReadWrite, 0x2u)
E(HostAccessQualifier, NoneINTEL, 0x0u)
E(HostAccessQualifier, ReadINTEL, 0x1u)
E(HostAccessQualifier, WriteINTEL, 0x2u)
E(HostAccessQualifier, ReadWriteINTEL, 0x3u)
E(FunctionParameterAttribute, Zext, 0x0u)
E(FunctionParameterAttribute, Sext, 0x1u)
E(FunctionParameterAttribute, ByVal, 0x2u)
E(FunctionParameterAttribute, Sret, 0x3u)
E(FunctionParameterAttribute, NoAlias, 0x4u)
E(FunctionParameterAttribute, NoCapture, 0x5u)
E(FunctionParameterAttribute, NoWrite, 0x6u)
E(FunctionParameterAttribute, NoReadWrite, 0x7u)
E(FunctionParameterAttribute, RuntimeAlignedINTEL, 0x1734u)
E(Decoration, RelaxedPrecision, 0x0u)
E(Decoration, SpecId, 0x1u)
E(Decoration, Block, 0x2u)
E(Decoration, BufferBlock, 0x3u)
E(Decoration, RowMajor, 0x4u)
E(Decoration, ColMajor, 0x5u)
E(Decoration, ArrayStride, 0x6u)
E(Decoration, MatrixStride, 0x7u)
E(Decoration, GLSLShared, 0x8u)
E(Decoration, GLSLPacked, 0x9u)
E(Decoration, CPacked, 0xau)
E(Decoration, BuiltIn, 0xbu)
E(Decoration, NoPerspective, 0xdu)
E(Decoration, Flat, 0xeu)
E(Decoration, Patch, 0xfu)
E(Decoration, Centroid, 0x10u)
E(Decoration, Sample, 0x11u)
E(Decoration, Invariant, 0x12u)
E(Decoration, Restrict, 0x13u)
E(Decoration, Aliased, 0x14u)
E(Decoration, Volatile, 0x15u)
E(Decoration, Constant, 0x16u)
E(Decoration, Coherent, 0x17u)
E(Decoration, NonWritable, 0x18u)
E(Decoration, NonReadable, 0x19u)
E(Decoration, Uniform, 0x1au)
E(Decoration, UniformId, 0x1bu)
E(Decoration, SaturatedConversion, 0x1cu)
E(Decoration, Stream, 0x1du)
E(Decoration, Location, 0x1eu)
E(Decoration, Component, 0x1fu)
E(Decoration, Index, 0x20u)
E(Decoration, Binding, 0x21u)
E(Decoration, DescriptorSet, 0x22u)
E(Decoration, Offset, 0x23u)
E(Decoration, XfbBuffer, 0x24u)
E(Decoration, XfbStride, 0x25u)
E(Decoration, FuncParamAttr, 0x26u)
E(Decoration, FPRoundingMode, 0x27u)
E(Decoration, FPFastMathMode, 0x28u)
E(Decoration, LinkageAttributes, 0x29u)
E(Decoration, NoContraction, 0x2au)
E(Decoration, InputAttachmentIndex, 0x2bu)
E(Decoration, Alignment, 0x2cu)
E(Decoration, MaxByteOffset, 0x2du)
E(Decoration, AlignmentId, 0x2eu)
E(Decoration, MaxByteOffsetId, 0x2fu)
E(Decoration, NoSignedWrap, 0x1175u)
E(Decoration, NoUnsignedWrap, 0x1176u)
E(Decoration, WeightTextureQCOM, 0x1187u)
E(Decoration, BlockMatchTextureQCOM, 0x1188u)
E(Decoration, ExplicitInterpAMD, 0x1387u)
E(Decoration, NodeSharesPayloadLimitsWithAMDX, 0x139bu)
E(Decoration, NodeMaxPayloadsAMDX, 0x139cu)
E(Decoration, TrackFinishWritingAMDX, 0x13d6u)
E(Decoration, PayloadNodeNameAMDX, 0x13e3u)
E(Decoration, OverrideCoverageNV, 0x1480u)
E(Decoration, PassthroughNV, 0x1482u)
E(Decoration, ViewportRelativeNV, 0x1484u)
E(Decoration, SecondaryViewportRelativeNV, 0x1488u)
E(Decoration, PerPrimitiveNV, 0x1497u)
E(Decoration, PerPrimitiveEXT, 0x1497u)
E(Decoration, PerViewNV, 0x1498u)
E(Decoration, PerTaskNV, 0x1499u)
E(Decoration, PerVertexKHR, 0x14a5u)
E(Decoration, PerVertexNV, 0x14a5u)
E(Decoration, NonUniform, 0x14b4u)
E(Decoration, NonUniformEXT, 0x14b4u)
E(Decoration, RestrictPointer, 0x14ebu)
E(Decoration, RestrictPointerEXT, 0x14ebu)
E(Decoration, AliasedPointer, 0x14ecu)
E(Decoration, AliasedPointerEXT, 0x14ecu)
E(Decoration, HitObjectShaderRecordBufferNV, 0x150au)
E(Decoration, BindlessSamplerNV, 0x1516u)
E(Decoration, BindlessImageNV, 0x1517u)
E(Decoration, BoundSamplerNV, 0x1518u)
E(Decoration, BoundImageNV, 0x1519u)
E(Decoration, SIMTCallINTEL, 0x15dfu)
E(Decoration, ReferencedIndirectlyINTEL, 0x15e2u)
E(Decoration, ClobberINTEL, 0x15e7u)
E(Decoration, SideEffectsINTEL, 0x15e8u)
E(Decoration, VectorComputeVariableINTEL, 0x15f8u)
E(Decoration, FuncParamIOKindINTEL, 0x15f9u)
E(Decoration, VectorComputeFunctionINTEL, 0x15fau)
E(Decoration, StackCallINTEL, 0x15fbu)
E(Decoration, GlobalVariableOffsetINTEL, 0x15fcu)
E(Decoration, CounterBuffer, 0x1602u)
E(Decoration, HlslCounterBufferGOOGLE, 0x1602u)
E(Decoration, UserSemantic, 0x1603u)
E(Decoration, HlslSemanticGOOGLE, 0x1603u)
E(Decoration, UserTypeGOOGLE, 0x1604u)
E(Decoration, FunctionRoundingModeINTEL, 0x16beu)
E(Decoration, FunctionDenormModeINTEL, 0x16bfu)
E(Decoration, RegisterINTEL, 0x16c1u)
E(Decoration, MemoryINTEL, 0x16c2u)
E(Decoration, NumbanksINTEL, 0x16c3u)
E(Decoration, BankwidthINTEL, 0x16c4u)
E(Decoration, MaxPrivateCopiesINTEL, 0x16c5u)
E(Decoration, SinglepumpINTEL, 0x16c6u)
E(Decoration, DoublepumpINTEL, 0x16c7u)
E(Decoration, MaxReplicatesINTEL, 0x16c8u)
E(Decoration, SimpleDualPortINTEL, 0x16c9u)
E(Decoration, MergeINTEL, 0x16cau)
E(Decoration, BankBitsINTEL, 0x16cbu)
E(Decoration, ForcePow2DepthINTEL, 0x16ccu)
E(Decoration, BurstCoalesceINTEL, 0x170bu)
E(Decoration, CacheSizeINTEL, 0x170cu)
E(Decoration, DontStaticallyCoalesceINTEL, 0x170du)
E(Decoration, PrefetchINTEL, 0x170eu)
E(Decoration, StallEnableINTEL, 0x1711u)
E(Decoration, FuseLoopsInFunctionINTEL, 0x1713u)
E(Decoration, MathOpDSPModeINTEL, 0x1715u)
E(Decoration, AliasScopeINTEL, 0x171au)
E(Decoration, NoAliasINTEL, 0x171bu)
E(Decoration, InitiationIntervalINTEL, 0x171du)
E(Decoration, MaxConcurrencyINTEL, 0x171eu)
E(Decoration, PipelineEnableINTEL, 0x171fu)
E(Decoration, BufferLocationINTEL, 0x1721u)
E(Decoration, IOPipeStorageINTEL, 0x1738u)
E(Decoration, FunctionFloatingPointModeINTEL, 0x17c0u)
E(Decoration, SingleElementVectorINTEL, 0x17c5u)
E(Decoration, VectorComputeCallableFunctionINTEL, 0x17c7u)
E(Decoration, MediaBlockIOINTEL, 0x17fcu)
E(Decoration, FPMaxErrorDecorationINTEL, 0x181au)
E(Decoration, LatencyControlLabelINTEL, 0x181cu)
E(Decoration, LatencyControlConstraintINTEL, 0x181du)
E(Decoration, ConduitKernelArgumentINTEL, 0x181fu)
E(Decoration, RegisterMapKernelArgumentINTEL, 0x1820u)
E(Decoration, MMHostInterfaceAddressWidthINTEL, 0x1821u)
E(Decoration, MMHostInterfaceDataWidthINTEL, 0x1822u)
E(Decoration, MMHostInterfaceLatencyINTEL, 0x1823u)
E(Decoration, MMHostInterfaceReadWriteModeINTEL, 0x1824u)
E(Decoration, MMHostInterfaceMaxBurstINTEL, 0x1825u)
E(Decoration, MMHostInterfaceWaitRequestINTEL, 0x1826u)
E(Decoration, StableKernelArgumentINTEL, 0x1827u)
E(Decoration, HostAccessINTEL, 0x182cu)
E(Decoration, InitModeINTEL, 0x182eu)
E(Decoration, ImplementInRegisterMapINTEL, 0x182fu)
E(Decoration, CacheControlLoadINTEL, 0x192au)
E(Decoration, CacheControlStoreINTEL, 0x192bu)
E(BuiltIn, Position, 0x0u)
E(BuiltIn, PointSize, 0x1u)
E(BuiltIn, ClipDistance, 0x3u)
E(BuiltIn, CullDistance, 0x4u)
E(BuiltIn, VertexId, 0x5u)
E(BuiltIn, InstanceId, 0x6u)
E(BuiltIn, PrimitiveId, 0x7u)
E(BuiltIn, InvocationId, 0x8u)
E(BuiltIn, Layer, 0x9u)
E(BuiltIn, ViewportIndex, 0xau)
E(BuiltIn, TessLevelOuter, 0xbu)
E(BuiltIn, TessLevelInner, 0xcu)
E(BuiltIn, TessCoord, 0xdu)
E(BuiltIn, PatchVertices, 0xeu)
E(BuiltIn, FragCoord, 0xfu)
E(BuiltIn, PointCoord, 0x10u)
E(BuiltIn, FrontFacing, 0x11u)
E(BuiltIn, SampleId, 0x12u)
E(BuiltIn, SamplePosition, 0x13u)
E(BuiltIn, SampleMask, 0x14u)
E(BuiltIn, FragDepth, 0x16u)
E(BuiltIn, HelperInvocation, 0x17u)
E(BuiltIn, NumWorkgroups, 0x18u)
E(BuiltIn, WorkgroupSize, 0x19u)
E(BuiltIn, WorkgroupId, 0x1au)
E(BuiltIn, LocalInvocationId, 0x1bu)
E(BuiltIn, GlobalInvocationId, 0x1cu)
E(BuiltIn, LocalInvocationIndex, 0x1du)
E(BuiltIn, WorkDim, 0x1eu)
E(BuiltIn, GlobalSize, 0x1fu)
E(BuiltIn, EnqueuedWorkgroupSize, 0x20u)
E(BuiltIn, GlobalOffset, 0x21u)
E(BuiltIn, GlobalLinearId, 0x22u)
E(BuiltIn, SubgroupSize, 0x24u)
E(BuiltIn, SubgroupMaxSize, 0x25u)
E(BuiltIn, NumSubgroups, 0x26u)
E(BuiltIn, NumEnqueuedSubgroups, 0x27u)
E(BuiltIn, SubgroupId, 0x28u)
E(BuiltIn, SubgroupLocalInvocationId, 0x29u)
E(BuiltIn, VertexIndex, 0x2au)
E(BuiltIn, InstanceIndex, 0x2bu)
E(BuiltIn, CoreIDARM, 0x1040u)
E(BuiltIn, CoreCountARM, 0x1041u)
E(BuiltIn, CoreMaxIDARM, 0x1042u)
E(BuiltIn, WarpIDARM, 0x1043u)
E(BuiltIn, WarpMaxIDARM, 0x1044u)
E(BuiltIn, SubgroupEqMask, 0x1140u)
E(BuiltIn, SubgroupEqMaskKHR, 0x1140u)
E(BuiltIn, SubgroupGeMask, 0x1141u)
E(BuiltIn, SubgroupGeMaskKHR, 0x1141u)
E(BuiltIn, SubgroupGtMask, 0x1142u)
E(BuiltIn, SubgroupGtMaskKHR, 0x1142u)
E(BuiltIn, SubgroupLeMask, 0x1143u)
E(BuiltIn, SubgroupLeMaskKHR, 0x1143u)
E(BuiltIn, SubgroupLtMask, 0x1144u)
E(BuiltIn, SubgroupLtMaskKHR, 0x1144u)
E(BuiltIn, BaseVertex, 0x1148u)
E(BuiltIn, BaseInstance, 0x1149u)
E(BuiltIn, DrawIndex, 0x114au)
E(BuiltIn, PrimitiveShadingRateKHR, 0x1150u)
E(BuiltIn, DeviceIndex, 0x1156u)
E(BuiltIn, ViewIndex, 0x1158u)
E(BuiltIn, ShadingRateKHR, 0x115cu)
E(BuiltIn, BaryCoordNoPerspAMD, 0x1380u)
E(BuiltIn, BaryCoordNoPerspCentroidAMD, 0x1381u)
E(BuiltIn, BaryCoordNoPerspSampleAMD, 0x1382u)
E(BuiltIn, BaryCoordSmoothAMD, 0x1383u)
E(BuiltIn, BaryCoordSmoothCentroidAMD, 0x1384u)
E(BuiltIn, BaryCoordSmoothSampleAMD, 0x1385u)
E(BuiltIn, BaryCoordPullModelAMD, 0x1386u)
E(BuiltIn, FragStencilRefEXT, 0x1396u)
E(BuiltIn, CoalescedInputCountAMDX, 0x139du)
E(BuiltIn, ShaderIndexAMDX, 0x13d1u)
E(BuiltIn, ViewportMaskNV, 0x1485u)
E(BuiltIn, SecondaryPositionNV, 0x1489u)
E(BuiltIn, SecondaryViewportMaskNV, 0x148au)
E(BuiltIn, PositionPerViewNV, 0x148du)
E(BuiltIn, ViewportMaskPerViewNV, 0x148eu)
E(BuiltIn, FullyCoveredEXT, 0x1490u)
E(BuiltIn, TaskCountNV, 0x149au)
E(BuiltIn, PrimitiveCountNV, 0x149bu)
E(BuiltIn, PrimitiveIndicesNV, 0x149cu)
E(BuiltIn, ClipDistancePerViewNV, 0x149du)
E(BuiltIn, CullDistancePerViewNV, 0x149eu)
E(BuiltIn, LayerPerViewNV, 0x149fu)
E(BuiltIn, MeshViewCountNV, 0x14a0u)
E(BuiltIn, MeshViewIndicesNV, 0x14a1u)
E(BuiltIn, BaryCoordKHR, 0x14a6u)
E(BuiltIn, BaryCoordNV, 0x14a6u)
E(BuiltIn, BaryCoordNoPerspKHR, 0x14a7u)
E(BuiltIn, BaryCoordNoPerspNV, 0x14a7u)
E(BuiltIn, FragSizeEXT, 0x14acu)
E(BuiltIn, FragmentSizeNV, 0x14acu)
E(BuiltIn, FragInvocationCountEXT, 0x14adu)
E(BuiltIn, InvocationsPerPixelNV, 0x14adu)
E(BuiltIn, PrimitivePointIndicesEXT, 0x14aeu)
E(BuiltIn, PrimitiveLineIndicesEXT, 0x14afu)
E(BuiltIn, PrimitiveTriangleIndicesEXT, 0x14b0u)
E(BuiltIn, CullPrimitiveEXT, 0x14b3u)
E(BuiltIn, LaunchIdNV, 0x14c7u)
E(BuiltIn, LaunchIdKHR, 0x14c7u)
E(BuiltIn, LaunchSizeNV, 0x14c8u)
E(BuiltIn, LaunchSizeKHR, 0x14c8u)
E(BuiltIn, WorldRayOriginNV, 0x14c9u)
E(BuiltIn, WorldRayOriginKHR, 0x14c9u)
E(BuiltIn, WorldRayDirectionNV, 0x14cau)
E(BuiltIn, WorldRayDirectionKHR, 0x14cau)
E(BuiltIn, ObjectRayOriginNV, 0x14cbu)
E(BuiltIn, ObjectRayOriginKHR, 0x14cbu)
E(BuiltIn, ObjectRayDirectionNV, 0x14ccu)
E(BuiltIn, ObjectRayDirectionKHR, 0x14ccu)
E(BuiltIn, RayTminNV, 0x14cdu)
E(BuiltIn, RayTminKHR, 0x14cdu)
E(BuiltIn, RayTmaxNV, 0x14ceu)
E(BuiltIn, RayTmaxKHR, 0x14ceu)
E(BuiltIn, InstanceCustomIndexNV, 0x14cfu)
E(BuiltIn, InstanceCustomIndexKHR, 0x14cfu)
E(BuiltIn, ObjectToWorldNV, 0x14d2u)
E(BuiltIn, ObjectToWorldKHR, 0x14d2u)
E(BuiltIn, WorldToObjectNV, 0x14d3u)
E(BuiltIn, WorldToObjectKHR, 0x14d3u)
E(BuiltIn, HitTNV, 0x14d4u)
E(BuiltIn, HitKindNV, 0x14d5u)
E(BuiltIn, HitKindKHR, 0x14d5u)
E(BuiltIn, CurrentRayTimeNV, 0x14d6u)
E(BuiltIn, HitTriangleVertexPositionsKHR, 0x14d7u)
E(BuiltIn, IncomingRayFlagsNV, 0x14e7u)
E(BuiltIn, IncomingRayFlagsKHR, 0x14e7u)
E(BuiltIn, RayGeometryIndexKHR, 0x14e8u)
E(BuiltIn, WarpsPerSMNV, 0x14feu)
E(BuiltIn, SMCountNV, 0x14ffu)
E(BuiltIn, WarpIDNV, 0x1500u)
E(BuiltIn, SMIDNV, 0x1501u)
E(BuiltIn, CullMaskKHR, 0x1785u)
E(Scope, CrossDevice, 0x0u)
E(Scope, Device, 0x1u)
E(Scope, Workgroup, 0x2u)
E(Scope, Subgroup, 0x3u)
E(Scope, Invocation, 0x4u)
E(Scope, QueueFamily, 0x5u)
E(Scope, QueueFamilyKHR, 0x5u)
E(Scope, ShaderCallKHR, 0x6u)
E(GroupOperation, Reduce, 0x0u)
E(GroupOperation, InclusiveScan, 0x1u)
E(GroupOperation, ExclusiveScan, 0x2u)
E(GroupOperation, ClusteredReduce, 0x3u)
E(GroupOperation, PartitionedReduceNV, 0x6u)
E(GroupOperation, PartitionedInclusiveScanNV, 0x7u)
E(GroupOperation, PartitionedExclusiveScanNV, 0x8u)
E(KernelEnqueueFlags, NoWait, 0x0u)
E(KernelEnqueueFlags, WaitKernel, 0x1u)
E(KernelEnqueueFlags, WaitWorkGroup, 0x2u)
E(Capability, Matrix, 0x0u)
E(Capability, Shader, 0x1u)
E(Capability, Geometry, 0x2u)
E(Capability, Tessellation, 0x3u)
E(Capability, Addresses, 0x4u)
E(Capability, Linkage, 0x5u)
E(Capability, Kernel, 0x6u)
E(Capability, Vector16, 0x7u)
E(Capability, Float16Buffer, 0x8u)
E(Capability, Float16, 0x9u)
E(Capability, Float64, 0xau)
E(Capability, Int64, 0xbu)
E(Capability, Int64Atomics, 0xcu)
E(Capability, ImageBasic, 0xdu)
E(Capability, ImageReadWrite, 0xeu)
E(Capability, ImageMipmap, 0xfu)
E(Capability, Pipes, 0x11u)
E(Capability, Groups, 0x12u)
E(Capability, DeviceEnqueue, 0x13u)
E(Capability, LiteralSampler, 0x14u)
E(Capability, AtomicStorage, 0x15u)
E(Capability, Int16, 0x16u)
E(Capability, TessellationPointSize, 0x17u)
E(Capability, GeometryPointSize, 0x18u)
E(Capability, ImageGatherExtended, 0x19u)
E(Capability, StorageImageMultisample, 0x1bu)
E(Capability, UniformBufferArrayDynamicIndexing, 0x1cu)
E(Capability, SampledImageArrayDynamicIndexing, 0x1du)
E(Capability, StorageBufferArrayDynamicIndexing, 0x1eu)
E(Capability, StorageImageArrayDynamicIndexing, 0x1fu)
E(Capability, ClipDistance, 0x20u)
E(Capability, CullDistance, 0x21u)
E(Capability, ImageCubeArray, 0x22u)
E(Capability, SampleRateShading, 0x23u)
E(Capability, ImageRect, 0x24u)
E(Capability, SampledRect, 0x25u)
E(Capability, GenericPointer, 0x26u)
E(Capability, Int8, 0x27u)
E(Capability, InputAttachment, 0x28u)
E(Capability, SparseResidency, 0x29u)
E(Capability, MinLod, 0x2au)
E(Capability, Sampled1D, 0x2bu)
E(Capability, Image1D, 0x2cu)
E(Capability, SampledCubeArray, 0x2du)
E(Capability, SampledBuffer, 0x2eu)
E(Capability, ImageBuffer, 0x2fu)
E(Capability, ImageMSArray, 0x30u)
E(Capability, StorageImageExtendedFormats, 0x31u)
E(Capability, ImageQuery, 0x32u)
E(Capability, DerivativeControl, 0x33u)
E(Capability, InterpolationFunction, 0x34u)
E(Capability, TransformFeedback, 0x35u)
E(Capability, GeometryStreams, 0x36u)
E(Capability, StorageImageReadWithoutFormat, 0x37u)
E(Capability, StorageImageWriteWithoutFormat, 0x38u)
E(Capability, MultiViewport, 0x39u)
E(Capability, SubgroupDispatch, 0x3au)
E(Capability, NamedBarrier, 0x3bu)
E(Capability, PipeStorage, 0x3cu)
E(Capability, GroupNonUniform, 0x3du)
E(Capability, GroupNonUniformVote, 0x3eu)
E(Capability, GroupNonUniformArithmetic, 0x3fu)
E(Capability, GroupNonUniformBallot, 0x40u)
E(Capability, GroupNonUniformShuffle, 0x41u)
E(Capability, GroupNonUniformShuffleRelative, 0x42u)
E(Capability, GroupNonUniformClustered, 0x43u)
E(Capability, GroupNonUniformQuad, 0x44u)
E(Capability, ShaderLayer, 0x45u)
E(Capability, ShaderViewportIndex, 0x46u)
E(Capability, UniformDecoration, 0x47u)
E(Capability, CoreBuiltinsARM, 0x1045u)
E(Capability, TileImageColorReadAccessEXT, 0x1046u)
E(Capability, TileImageDepthReadAccessEXT, 0x1047u)
E(Capability, TileImageStencilReadAccessEXT, 0x1048u)
E(Capability, FragmentShadingRateKHR, 0x1146u)
E(Capability, SubgroupBallotKHR, 0x1147u)
E(Capability, DrawParameters, 0x114bu)
E(Capability, WorkgroupMemoryExplicitLayoutKHR, 0x114cu)
E(Capability, WorkgroupMemoryExplicitLayout8BitAccessKHR, 0x114du)
E(Capability, WorkgroupMemoryExplicitLayout16BitAccessKHR, 0x114eu)
E(Capability, SubgroupVoteKHR, 0x114fu)
E(Capability, StorageBuffer16BitAccess, 0x1151u)
E(Capability, StorageUniformBufferBlock16, 0x1151u)
E(Capability, UniformAndStorageBuffer16BitAccess, 0x1152u)
E(Capability, StorageUniform16, 0x1152u)
E(Capability, StoragePushConstant16, 0x1153u)
E(Capability, StorageInputOutput16, 0x1154u)
E(Capability, DeviceGroup, 0x1155u)
E(Capability, MultiView, 0x1157u)
E(Capability, VariablePointersStorageBuffer, 0x1159u)
E(Capability, VariablePointers, 0x115au)
E(Capability, AtomicStorageOps, 0x115du)
E(Capability, SampleMaskPostDepthCoverage, 0x115fu)
E(Capability, StorageBuffer8BitAccess, 0x1160u)
E(Capability, UniformAndStorageBuffer8BitAccess, 0x1161u)
E(Capability, StoragePushConstant8, 0x1162u)
E(Capability, DenormPreserve, 0x1170u)
E(Capability, DenormFlushToZero, 0x1171u)
E(Capability, SignedZeroInfNanPreserve, 0x1172u)
E(Capability, RoundingModeRTE, 0x1173u)
E(Capability, RoundingModeRTZ, 0x1174u)
E(Capability, RayQueryProvisionalKHR, 0x1177u)
E(Capability, RayQueryKHR, 0x1178u)
E(Capability, RayTraversalPrimitiveCullingKHR, 0x117eu)
E(Capability, RayTracingKHR, 0x117fu)
E(Capability, TextureSampleWeightedQCOM, 0x1184u)
E(Capability, TextureBoxFilterQCOM, 0x1185u)
E(Capability, TextureBlockMatchQCOM, 0x1186u)
E(Capability, Float16ImageAMD, 0x1390u)
E(Capability, ImageGatherBiasLodAMD, 0x1391u)
E(Capability, FragmentMaskAMD, 0x1392u)
E(Capability, StencilExportEXT, 0x1395u)
E(Capability, ImageReadWriteLodAMD, 0x1397u)
E(Capability, Int64ImageEXT, 0x1398u)
E(Capability, ShaderClockKHR, 0x13bfu)
E(Capability, ShaderEnqueueAMDX, 0x13cbu)
E(Capability, SampleMaskOverrideCoverageNV, 0x1481u)
E(Capability, GeometryShaderPassthroughNV, 0x1483u)
E(Capability, ShaderViewportIndexLayerEXT, 0x1486u)
E(Capability, ShaderViewportIndexLayerNV, 0x1486u)
E(Capability, ShaderViewportMaskNV, 0x1487u)
E(Capability, ShaderStereoViewNV, 0x148bu)
E(Capability, PerViewAttributesNV, 0x148cu)
E(Capability, FragmentFullyCoveredEXT, 0x1491u)
E(Capability, MeshShadingNV, 0x1492u)
E(Capability, ImageFootprintNV, 0x14a2u)
E(Capability, MeshShadingEXT, 0x14a3u)
E(Capability, FragmentBarycentricKHR, 0x14a4u)
E(Capability, FragmentBarycentricNV, 0x14a4u)
E(Capability, ComputeDerivativeGroupQuadsNV, 0x14a8u)
E(Capability, FragmentDensityEXT, 0x14abu)
E(Capability, ShadingRateNV, 0x14abu)
E(Capability, GroupNonUniformPartitionedNV, 0x14b1u)
E(Capability, ShaderNonUniform, 0x14b5u)
E(Capability, ShaderNonUniformEXT, 0x14b5u)
E(Capability, RuntimeDescriptorArray, 0x14b6u)
E(Capability, RuntimeDescriptorArrayEXT, 0x14b6u)
E(Capability, InputAttachmentArrayDynamicIndexing, 0x14b7u)
E(Capability, InputAttachmentArrayDynamicIndexingEXT, 0x14b7u)
E(Capability, UniformTexelBufferArrayDynamicIndexing, 0x14b8u)
E(Capability, UniformTexelBufferArrayDynamicIndexingEXT, 0x14b8u)
E(Capability, StorageTexelBufferArrayDynamicIndexing, 0x14b9u)
E(Capability, StorageTexelBufferArrayDynamicIndexingEXT, 0x14b9u)
E(Capability, UniformBufferArrayNonUniformIndexing, 0x14bau)
E(Capability, UniformBufferArrayNonUniformIndexingEXT, 0x14bau)
E(Capability, SampledImageArrayNonUniformIndexing, 0x14bbu)
E(Capability, SampledImageArrayNonUniformIndexingEXT, 0x14bbu)
E(Capability, StorageBufferArrayNonUniformIndexing, 0x14bcu)
E(Capability, StorageBufferArrayNonUniformIndexingEXT, 0x14bcu)
E(Capability, StorageImageArrayNonUniformIndexing, 0x14bdu)
E(Capability, StorageImageArrayNonUniformIndexingEXT, 0x14bdu)
E(Capability, InputAttachmentArrayNonUniformIndexing, 0x14beu)
E(Capability, InputAttachmentArrayNonUniformIndexingEXT, 0x14beu)
E(Capability, UniformTexelBufferArrayNonUniformIndexing, 0x14bfu)
E(Capability, UniformTexelBufferArrayNonUniformIndexingEXT, 0x14bfu)
E(Capability, StorageTexelBufferArrayNonUniformIndexing, 0x14c0u)
E(Capability, StorageTexelBufferArrayNonUniformIndexingEXT, 0x14c0u)
E(Capability, RayTracingPositionFetchKHR, 0x14d8u)
E(Capability, RayTracingNV, 0x14dcu)
E(Capability, RayTracingMotionBlurNV, 0x14ddu)
E(Capability, VulkanMemoryModel, 0x14e1u)
E(Capability, VulkanMemoryModelKHR, 0x14e1u)
E(Capability, VulkanMemoryModelDeviceScope, 0x14e2u)
E(Capability, VulkanMemoryModelDeviceScopeKHR, 0x14e2u)
E(Capability, PhysicalStorageBufferAddresses, 0x14e3u)
E(Capability, PhysicalStorageBufferAddressesEXT, 0x14e3u)
E(Capability, ComputeDerivativeGroupLinearNV, 0x14e6u)
E(Capability, RayTracingProvisionalKHR, 0x14e9u)
E(Capability, CooperativeMatrixNV, 0x14edu)
E(Capability, FragmentShaderSampleInterlockEXT, 0x14f3u)
E(Capability, FragmentShaderShadingRateInterlockEXT, 0x14fcu)
E(Capability, ShaderSMBuiltinsNV, 0x14fdu)
E(Capability, FragmentShaderPixelInterlockEXT, 0x1502u)
E(Capability, DemoteToHelperInvocation, 0x1503u)
E(Capability, DemoteToHelperInvocationEXT, 0x1503u)
E(Capability, RayTracingOpacityMicromapEXT, 0x1505u)
E(Capability, ShaderInvocationReorderNV, 0x1507u)
E(Capability, BindlessTextureNV, 0x150eu)
E(Capability, RayQueryPositionFetchKHR, 0x150fu)
E(Capability, SubgroupShuffleINTEL, 0x15c0u)
E(Capability, SubgroupBufferBlockIOINTEL, 0x15c1u)
E(Capability, SubgroupImageBlockIOINTEL, 0x15c2u)
E(Capability, SubgroupImageMediaBlockIOINTEL, 0x15cbu)
E(Capability, RoundToInfinityINTEL, 0x15ceu)
E(Capability, FloatingPointModeINTEL, 0x15cfu)
E(Capability, IntegerFunctions2INTEL, 0x15d0u)
E(Capability, FunctionPointersINTEL, 0x15e3u)
E(Capability, IndirectReferencesINTEL, 0x15e4u)
E(Capability, AsmINTEL, 0x15e6u)
E(Capability, AtomicFloat32MinMaxEXT, 0x15ecu)
E(Capability, AtomicFloat64MinMaxEXT, 0x15edu)
E(Capability, AtomicFloat16MinMaxEXT, 0x15f0u)
E(Capability, VectorComputeINTEL, 0x15f1u)
E(Capability, VectorAnyINTEL, 0x15f3u)
E(Capability, ExpectAssumeKHR, 0x15fdu)
E(Capability, SubgroupAvcMotionEstimationINTEL, 0x1640u)
E(Capability, SubgroupAvcMotionEstimationIntraINTEL, 0x1641u)
E(Capability, SubgroupAvcMotionEstimationChromaINTEL, 0x1642u)
E(Capability, VariableLengthArrayINTEL, 0x16b9u)
E(Capability, FunctionFloatControlINTEL, 0x16bdu)
E(Capability, FPGAMemoryAttributesINTEL, 0x16c0u)
E(Capability, FPFastMathModeINTEL, 0x16cdu)
E(Capability, ArbitraryPrecisionIntegersINTEL, 0x16d4u)
E(Capability, ArbitraryPrecisionFloatingPointINTEL, 0x16d5u)
E(Capability, UnstructuredLoopControlsINTEL, 0x16feu)
E(Capability, FPGALoopControlsINTEL, 0x1700u)
E(Capability, KernelAttributesINTEL, 0x1704u)
E(Capability, FPGAKernelAttributesINTEL, 0x1709u)
E(Capability, FPGAMemoryAccessesINTEL, 0x170au)
E(Capability, FPGAClusterAttributesINTEL, 0x1710u)
E(Capability, LoopFuseINTEL, 0x1712u)
E(Capability, FPGADSPControlINTEL, 0x1714u)
E(Capability, MemoryAccessAliasingINTEL, 0x1716u)
E(Capability, FPGAInvocationPipeliningAttributesINTEL, 0x171cu)
E(Capability, FPGABufferLocationINTEL, 0x1720u)
E(Capability, ArbitraryPrecisionFixedPointINTEL, 0x1722u)
E(Capability, USMStorageClassesINTEL, 0x172fu)
E(Capability, RuntimeAlignedAttributeINTEL, 0x1733u)
E(Capability, IOPipesINTEL, 0x1737u)
E(Capability, BlockingPipesINTEL, 0x1739u)
E(Capability, FPGARegINTEL, 0x173cu)
E(Capability, DotProductInputAll, 0x1780u)
E(Capability, DotProductInputAllKHR, 0x1780u)
E(Capability, DotProductInput4x8Bit, 0x1781u)
E(Capability, DotProductInput4x8BitKHR, 0x1781u)
E(Capability, DotProductInput4x8BitPacked, 0x1782u)
E(Capability, DotProductInput4x8BitPackedKHR, 0x1782u)
E(Capability, DotProduct, 0x1783u)
E(Capability, DotProductKHR, 0x1783u)
E(Capability, RayCullMaskKHR, 0x1784u)
E(Capability, CooperativeMatrixKHR, 0x1786u)
E(Capability, BitInstructions, 0x1789u)
E(Capability, GroupNonUniformRotateKHR, 0x178au)
E(Capability, AtomicFloat32AddEXT, 0x1791u)
E(Capability, AtomicFloat64AddEXT, 0x1792u)
E(Capability, OptNoneINTEL, 0x17ceu)
E(Capability, AtomicFloat16AddEXT, 0x17cfu)
E(Capability, DebugInfoModuleINTEL, 0x17e2u)
E(Capability, BFloat16ConversionINTEL, 0x17e3u)
E(Capability, SplitBarrierINTEL, 0x17fdu)
E(Capability, FPGAKernelAttributesv2INTEL, 0x1811u)
E(Capability, FPMaxErrorINTEL, 0x1819u)
E(Capability, FPGALatencyControlINTEL, 0x181bu)
E(Capability, FPGAArgumentInterfacesINTEL, 0x181eu)
E(Capability, GlobalVariableHostAccessINTEL, 0x182bu)
E(Capability, GlobalVariableFPGADecorationsINTEL, 0x182du)
E(Capability, GroupUniformArithmeticKHR, 0x1900u)
E(Capability, CacheControlsINTEL, 0x1929u)
E(RayQueryIntersection, RayQueryCandidateIntersectionKHR, 0x0u)
E(RayQueryIntersection, RayQueryCommittedIntersectionKHR, 0x1u)
E(RayQueryCommittedIntersectionType, RayQueryCommittedIntersectionNoneKHR, 0x0u)
E(RayQueryCommittedIntersectionType, RayQueryCommittedIntersectionTriangleKHR, 0x1u)
E(RayQueryCommittedIntersectionType, RayQueryCommittedIntersectionGeneratedKHR, 0x2u)
E(RayQueryCandidateIntersectionType, RayQueryCandidateIntersectionTriangleKHR, 0x0u)
E(RayQueryCandidateIntersectionType, RayQueryCandidateIntersectionAABBKHR, 0x1u)
E(PackedVectorFormat, PackedVectorFormat4x8Bit, 0x0u)
E(PackedVectorFormat, PackedVectorFormat4x8BitKHR, 0x0u)
E(CooperativeMatrixOperandsMask, NoneKHR, 0x0u)
E(CooperativeMatrixOperandsMask, MatrixASignedComponentsKHR, 0x1u)
E(CooperativeMatrixOperandsShift, MatrixASignedComponentsKHR, 0u)
E(CooperativeMatrixOperandsMask, MatrixBSignedComponentsKHR, 0x2u)
E(CooperativeMatrixOperandsShift, MatrixBSignedComponentsKHR, 1u)
E(CooperativeMatrixOperandsMask, MatrixCSignedComponentsKHR, 0x4u)
E(CooperativeMatrixOperandsShift, MatrixCSignedComponentsKHR, 2u)
E(CooperativeMatrixOperandsMask, MatrixResultSignedComponentsKHR, 0x8u)
E(CooperativeMatrixOperandsShift, MatrixResultSignedComponentsKHR, 3u)
E(CooperativeMatrixOperandsMask, SaturatingAccumulationKHR, 0x10u)
E(CooperativeMatrixOperandsShift, SaturatingAccumulationKHR, 4u)
E(CooperativeMatrixLayout, RowMajorKHR, 0x0u)
E(CooperativeMatrixLayout, ColumnMajorKHR, 0x1u)
E(CooperativeMatrixUse, MatrixAKHR, 0x0u)
E(CooperativeMatrixUse, MatrixBKHR, 0x1u)
E(CooperativeMatrixUse, MatrixAccumulatorKHR, 0x2u)
E(InitializationModeQualifier, InitOnDeviceReprogramINTEL, 0x0u)
E(InitializationModeQualifier, InitOnDeviceResetINTEL, 0x1u)
E(LoadCacheControl, UncachedINTEL, 0x0u)
E(LoadCacheControl, CachedINTEL, 0x1u)
E(LoadCacheControl, StreamingINTEL, 0x2u)
E(LoadCacheControl, InvalidateAfterReadINTEL, 0x3u)
E(LoadCacheControl, ConstCachedINTEL, 0x4u)
E(StoreCacheControl, UncachedINTEL, 0x0u)
E(StoreCacheControl, WriteThroughINTEL, 0x1u)
E(StoreCacheControl, WriteBackINTEL, 0x2u)
E(StoreCacheControl, StreamingINTEL, 0x3u)
E(Op, OpNop, 0u)
E(Op, OpUndef, 1u)
E(Op, OpSourceContinued, 2u)
E(Op, OpSource, 3u)
E(Op, OpSourceExtension, 4u)
E(Op, OpName, 5u)
E(Op, OpMemberName, 6u)
E(Op, OpString, 7u)
E(Op, OpLine, 8u)
E(Op, OpExtension, 10u)
E(Op, OpExtInstImport, 11u)
E(Op, OpExtInst, 12u)
E(Op, OpMemoryModel, 14u)
E(Op, OpEntryPoint, 15u)
E(Op, OpExecutionMode, 16u)
E(Op, OpCapability, 17u)
E(Op, OpTypeVoid, 19u)
E(Op, OpTypeBool, 20u)
E(Op, OpTypeInt, 21u)
E(Op, OpTypeFloat, 22u)
E(Op, OpTypeVector, 23u)
E(Op, OpTypeMatrix, 24u)
E(Op, OpTypeImage, 25u)
E(Op, OpTypeSampler, 26u)
E(Op, OpTypeSampledImage, 27u)
E(Op, OpTypeArray, 28u)
E(Op, OpTypeRuntimeArray, 29u)
E(Op, OpTypeStruct, 30u)
E(Op, OpTypeOpaque, 31u)
E(Op, OpTypePointer, 32u)
E(Op, OpTypeFunction, 33u)
E(Op, OpTypeEvent, 34u)
E(Op, OpTypeDeviceEvent, 35u)
E(Op, OpTypeReserveId, 36u)
E(Op, OpTypeQueue, 37u)
E(Op, OpTypePipe, 38u)
E(Op, OpTypeForwardPointer, 39u)
E(Op, OpConstantTrue, 41u)
E(Op, OpConstantFalse, 42u)
E(Op, OpConstant, 43u)
E(Op, OpConstantComposite, 44u)
E(Op, OpConstantSampler, 45u)
E(Op, OpConstantNull, 46u)
E(Op, OpSpecConstantTrue, 48u)
E(Op, OpSpecConstantFalse, 49u)
E(Op, OpSpecConstant, 50u)
E(Op, OpSpecConstantComposite, 51u)
E(Op, OpSpecConstantOp, 52u)
E(Op, OpFunction, 54u)
E(Op, OpFunctionParameter, 55u)
E(Op, OpFunctionEnd, 56u)
E(Op, OpFunctionCall, 57u)
E(Op, OpVariable, 59u)
E(Op, OpImageTexelPointer, 60u)
E(Op, OpLoad, 61u)
E(Op, OpStore, 62u)
E(Op, OpCopyMemory, 63u)
E(Op, OpCopyMemorySized, 64u)
E(Op, OpAccessChain, 65u)
E(Op, OpInBoundsAccessChain, 66u)
E(Op, OpPtrAccessChain, 67u)
E(Op, OpArrayLength, 68u)
E(Op, OpGenericPtrMemSemantics, 69u)
E(Op, OpInBoundsPtrAccessChain, 70u)
E(Op, OpDecorate, 71u)
E(Op, OpMemberDecorate, 72u)
E(Op, OpDecorationGroup, 73u)
E(Op, OpGroupDecorate, 74u)
E(Op, OpGroupMemberDecorate, 75u)
E(Op, OpVectorExtractDynamic, 77u)
E(Op, OpVectorInsertDynamic, 78u)
E(Op, OpVectorShuffle, 79u)
E(Op, OpCompositeConstruct, 80u)
E(Op, OpCompositeExtract, 81u)
E(Op, OpCompositeInsert, 82u)
E(Op, OpCopyObject, 83u)
E(Op, OpTranspose, 84u)
E(Op, OpSampledImage, 86u)
E(Op, OpImageSampleImplicitLod, 87u)
E(Op, OpImageSampleExplicitLod, 88u)
E(Op, OpImageSampleDrefImplicitLod, 89u)
E(Op, OpImageSampleDrefExplicitLod, 90u)
E(Op, OpImageSampleProjImplicitLod, 91u)
E(Op, OpImageSampleProjExplicitLod, 92u)
E(Op, OpImageSampleProjDrefImplicitLod, 93u)
E(Op, OpImageSampleProjDrefExplicitLod, 94u)
E(Op, OpImageFetch, 95u)
E(Op, OpImageGather, 96u)
E(Op, OpImageDrefGather, 97u)
E(Op, OpImageRead, 98u)
E(Op, OpImageWrite, 99u)
E(Op, OpImage, 100u)
E(Op, OpImageQueryFormat, 101u)
E(Op, OpImageQueryOrder, 102u)
E(Op, OpImageQuerySizeLod, 103u)
E(Op, OpImageQuerySize, 104u)
E(Op, OpImageQueryLod, 105u)
E(Op, OpImageQueryLevels, 106u)
E(Op, OpImageQuerySamples, 107u)
E(Op, OpConvertFToU, 109u)
E(Op, OpConvertFToS, 110u)
E(Op, OpConvertSToF, 111u)
E(Op, OpConvertUToF, 112u)
E(Op, OpUConvert, 113u)
E(Op, OpSConvert, 114u)
E(Op, OpFConvert, 115u)
E(Op, OpQuantizeToF16, 116u)
E(Op, OpConvertPtrToU, 117u)
E(Op, OpSatConvertSToU, 118u)
E(Op, OpSatConvertUToS, 119u)
E(Op, OpConvertUToPtr, 120u)
E(Op, OpPtrCastToGeneric, 121u)
E(Op, OpGenericCastToPtr, 122u)
E(Op, OpGenericCastToPtrExplicit, 123u)
E(Op, OpBitcast, 124u)
E(Op, OpSNegate, 126u)
E(Op, OpFNegate, 127u)
E(Op, OpIAdd, 128u)
E(Op, OpFAdd, 129u)
E(Op, OpISub, 130u)
E(Op, OpFSub, 131u)
E(Op, OpIMul, 132u)
E(Op, OpFMul, 133u)
E(Op, OpUDiv, 134u)
E(Op, OpSDiv, 135u)
E(Op, OpFDiv, 136u)
E(Op, OpUMod, 137u)
E(Op, OpSRem, 138u)
E(Op, OpSMod, 139u)
E(Op, OpFRem, 140u)
E(Op, OpFMod, 141u)
E(Op, OpVectorTimesScalar, 142u)
E(Op, OpMatrixTimesScalar, 143u)
E(Op, OpVectorTimesMatrix, 144u)
E(Op, OpMatrixTimesVector, 145u)
E(Op, OpMatrixTimesMatrix, 146u)
E(Op, OpOuterProduct, 147u)
E(Op, OpDot, 148u)
E(Op, OpIAddCarry, 149u)
E(Op, OpISubBorrow, 150u)
E(Op, OpUMulExtended, 151u)
E(Op, OpSMulExtended, 152u)
E(Op, OpAny, 154u)
E(Op, OpAll, 155u)
E(Op, OpIsNan, 156u)
E(Op, OpIsInf, 157u)
E(Op, OpIsFinite, 158u)
E(Op, OpIsNormal, 159u)
E(Op, OpSignBitSet, 160u)
E(Op, OpLessOrGreater, 161u)
E(Op, OpOrdered, 162u)
E(Op, OpUnordered, 163u)
E(Op, OpLogicalEqual, 164u)
E(Op, OpLogicalNotEqual, 165u)
E(Op, OpLogicalOr, 166u)
E(Op, OpLogicalAnd, 167u)
E(Op, OpLogicalNot, 168u)
E(Op, OpSelect, 169u)
E(Op, OpIEqual, 170u)
E(Op, OpINotEqual, 171u)
E(Op, OpUGreaterThan, 172u)
E(Op, OpSGreaterThan, 173u)
E(Op, OpUGreaterThanEqual, 174u)
E(Op, OpSGreaterThanEqual, 175u)
E(Op, OpULessThan, 176u)
E(Op, OpSLessThan, 177u)
E(Op, OpULessThanEqual, 178u)
E(Op, OpSLessThanEqual, 179u)
E(Op, OpFOrdEqual, 180u)
E(Op, OpFUnordEqual, 181u)
E(Op, OpFOrdNotEqual, 182u)
E(Op, OpFUnordNotEqual, 183u)
E(Op, OpFOrdLessThan, 184u)
E(Op, OpFUnordLessThan, 185u)
E(Op, OpFOrdGreaterThan, 186u)
E(Op, OpFUnordGreaterThan, 187u)
E(Op, OpFOrdLessThanEqual, 188u)
E(Op, OpFUnordLessThanEqual, 189u)
E(Op, OpFOrdGreaterThanEqual, 190u)
E(Op, OpFUnordGreaterThanEqual, 191u)
E(Op, OpShiftRightLogical, 194u)
E(Op, OpShiftRightArithmetic, 195u)
E(Op, OpShiftLeftLogical, 196u)
E(Op, OpBitwiseOr, 197u)
E(Op, OpBitwiseXor, 198u)
E(Op, OpBitwiseAnd, 199u)
E(Op, OpNot, 200u)
E(Op, OpBitFieldInsert, 201u)
E(Op, OpBitFieldSExtract, 202u)
E(Op, OpBitFieldUExtract, 203u)
E(Op, OpBitReverse, 204u)
E(Op, OpBitCount, 205u)
E(Op, OpDPdx, 207u)
E(Op, OpDPdy, 208u)
E(Op, OpFwidth, 209u)
E(Op, OpDPdxFine, 210u)
E(Op, OpDPdyFine, 211u)
E(Op, OpFwidthFine, 212u)
E(Op, OpDPdxCoarse, 213u)
E(Op, OpDPdyCoarse, 214u)
E(Op, OpFwidthCoarse, 215u)
E(Op, OpEmitVertex, 218u)
E(Op, OpEndPrimitive, 219u)
E(Op, OpEmitStreamVertex, 220u)
E(Op, OpEndStreamPrimitive, 221u)
E(Op, OpControlBarrier, 224u)
E(Op, OpMemoryBarrier, 225u)
E(Op, OpAtomicLoad, 227u)
E(Op, OpAtomicStore, 228u)
E(Op, OpAtomicExchange, 229u)
E(Op, OpAtomicCompareExchange, 230u)
E(Op, OpAtomicCompareExchangeWeak, 231u)
E(Op, OpAtomicIIncrement, 232u)
E(Op, OpAtomicIDecrement, 233u)
E(Op, OpAtomicIAdd, 234u)
E(Op, OpAtomicISub, 235u)
E(Op, OpAtomicSMin, 236u)
E(Op, OpAtomicUMin, 237u)
E(Op, OpAtomicSMax, 238u)
E(Op, OpAtomicUMax, 239u)
E(Op, OpAtomicAnd, 240u)
E(Op, OpAtomicOr, 241u)
E(Op, OpAtomicXor, 242u)
E(Op, OpPhi, 245u)
E(Op, OpLoopMerge, 246u)
E(Op, OpSelectionMerge, 247u)
E(Op, OpLabel, 248u)
E(Op, OpBranch, 249u)
E(Op, OpBranchConditional, 250u)
E(Op, OpSwitch, 251u)
E(Op, OpKill, 252u)
E(Op, OpReturn, 253u)
E(Op, OpReturnValue, 254u)
E(Op, OpUnreachable, 255u)
E(Op, OpLifetimeStart, 256u)
E(Op, OpLifetimeStop, 257u)
E(Op, OpGroupAsyncCopy, 259u)
E(Op, OpGroupWaitEvents, 260u)
E(Op, OpGroupAll, 261u)
E(Op, OpGroupAny, 262u)
E(Op, OpGroupBroadcast, 263u)
E(Op, OpGroupIAdd, 264u)
E(Op, OpGroupFAdd, 265u)
E(Op, OpGroupFMin, 266u)
E(Op, OpGroupUMin, 267u)
E(Op, OpGroupSMin, 268u)
E(Op, OpGroupFMax, 269u)
E(Op, OpGroupUMax, 270u)
E(Op, OpGroupSMax, 271u)
E(Op, OpReadPipe, 274u)
E(Op, OpWritePipe, 275u)
E(Op, OpReservedReadPipe, 276u)
E(Op, OpReservedWritePipe, 277u)
E(Op, OpReserveReadPipePackets, 278u)
E(Op, OpReserveWritePipePackets, 279u)
E(Op, OpCommitReadPipe, 280u)
E(Op, OpCommitWritePipe, 281u)
E(Op, OpIsValidReserveId, 282u)
E(Op, OpGetNumPipePackets, 283u)
E(Op, OpGetMaxPipePackets, 284u)
E(Op, OpGroupReserveReadPipePackets, 285u)
E(Op, OpGroupReserveWritePipePackets, 286u)
E(Op, OpGroupCommitReadPipe, 287u)
E(Op, OpGroupCommitWritePipe, 288u)
E(Op, OpEnqueueMarker, 291u)
E(Op, OpEnqueueKernel, 292u)
E(Op, OpGetKernelNDrangeSubGroupCount, 293u)
E(Op, OpGetKernelNDrangeMaxSubGroupSize, 294u)
E(Op, OpGetKernelWorkGroupSize, 295u)
E(Op, OpGetKernelPreferredWorkGroupSizeMultiple, 296u)
E(Op, OpRetainEvent, 297u)
E(Op, OpReleaseEvent, 298u)
E(Op, OpCreateUserEvent, 299u)
E(Op, OpIsValidEvent, 300u)
E(Op, OpSetUserEventStatus, 301u)
E(Op, OpCaptureEventProfilingInfo, 302u)
E(Op, OpGetDefaultQueue, 303u)
E(Op, OpBuildNDRange, 304u)
E(Op, OpImageSparseSampleImplicitLod, 305u)
E(Op, OpImageSparseSampleExplicitLod, 306u)
E(Op, OpImageSparseSampleDrefImplicitLod, 307u)
E(Op, OpImageSparseSampleDrefExplicitLod, 308u)
E(Op, OpImageSparseSampleProjImplicitLod, 309u)
E(Op, OpImageSparseSampleProjExplicitLod, 310u)
E(Op, OpImageSparseSampleProjDrefImplicitLod, 311u)
E(Op, OpImageSparseSampleProjDrefExplicitLod, 312u)
E(Op, OpImageSparseFetch, 313u)
E(Op, OpImageSparseGather, 314u)
E(Op, OpImageSparseDrefGather, 315u)
E(Op, OpImageSparseTexelsResident, 316u)
E(Op, OpNoLine, 317u)
E(Op, OpAtomicFlagTestAndSet, 318u)
E(Op, OpAtomicFlagClear, 319u)
E(Op, OpImageSparseRead, 320u)
E(Op, OpSizeOf, 321u)
E(Op, OpTypePipeStorage, 322u)
E(Op, OpConstantPipeStorage, 323u)
E(Op, OpCreatePipeFromPipeStorage, 324u)
E(Op, OpGetKernelLocalSizeForSubgroupCount, 325u)
E(Op, OpGetKernelMaxNumSubgroups, 326u)
E(Op, OpTypeNamedBarrier, 327u)
E(Op, OpNamedBarrierInitialize, 328u)
E(Op, OpMemoryNamedBarrier, 329u)
E(Op, OpModuleProcessed, 330u)
E(Op, OpExecutionModeId, 331u)
E(Op, OpDecorateId, 332u)
E(Op, OpGroupNonUniformElect, 333u)
E(Op, OpGroupNonUniformAll, 334u)
E(Op, OpGroupNonUniformAny, 335u)
E(Op, OpGroupNonUniformAllEqual, 336u)
E(Op, OpGroupNonUniformBroadcast, 337u)
E(Op, OpGroupNonUniformBroadcastFirst, 338u)
E(Op, OpGroupNonUniformBallot, 339u)
E(Op, OpGroupNonUniformInverseBallot, 340u)
E(Op, OpGroupNonUniformBallotBitExtract, 341u)
E(Op, OpGroupNonUniformBallotBitCount, 342u)
E(Op, OpGroupNonUniformBallotFindLSB, 343u)
E(Op, OpGroupNonUniformBallotFindMSB, 344u)
E(Op, OpGroupNonUniformShuffle, 345u)
E(Op, OpGroupNonUniformShuffleXor, 346u)
E(Op, OpGroupNonUniformShuffleUp, 347u)
E(Op, OpGroupNonUniformShuffleDown, 348u)
E(Op, OpGroupNonUniformIAdd, 349u)
E(Op, OpGroupNonUniformFAdd, 350u)
E(Op, OpGroupNonUniformIMul, 351u)
E(Op, OpGroupNonUniformFMul, 352u)
E(Op, OpGroupNonUniformSMin, 353u)
E(Op, OpGroupNonUniformUMin, 354u)
E(Op, OpGroupNonUniformFMin, 355u)
E(Op, OpGroupNonUniformSMax, 356u)
E(Op, OpGroupNonUniformUMax, 357u)
E(Op, OpGroupNonUniformFMax, 358u)
E(Op, OpGroupNonUniformBitwiseAnd, 359u)
E(Op, OpGroupNonUniformBitwiseOr, 360u)
E(Op, OpGroupNonUniformBitwiseXor, 361u)
E(Op, OpGroupNonUniformLogicalAnd, 362u)
E(Op, OpGroupNonUniformLogicalOr, 363u)
E(Op, OpGroupNonUniformLogicalXor, 364u)
E(Op, OpGroupNonUniformQuadBroadcast, 365u)
E(Op, OpGroupNonUniformQuadSwap, 366u)
E(Op, OpCopyLogical, 400u)
E(Op, OpPtrEqual, 401u)
E(Op, OpPtrNotEqual, 402u)
E(Op, OpPtrDiff, 403u)
E(Op, OpColorAttachmentReadEXT, 4160u)
E(Op, OpDepthAttachmentReadEXT, 4161u)
E(Op, OpStencilAttachmentReadEXT, 4162u)
E(Op, OpTerminateInvocation, 4416u)
E(Op, OpSubgroupBallotKHR, 4421u)
E(Op, OpSubgroupFirstInvocationKHR, 4422u)
E(Op, OpSubgroupAllKHR, 4428u)
E(Op, OpSubgroupAnyKHR, 4429u)
E(Op, OpSubgroupAllEqualKHR, 4430u)
E(Op, OpGroupNonUniformRotateKHR, 4431u)
E(Op, OpSubgroupReadInvocationKHR, 4432u)
E(Op, OpTraceRayKHR, 4445u)
E(Op, OpExecuteCallableKHR, 4446u)
E(Op, OpConvertUToAccelerationStructureKHR, 4447u)
E(Op, OpIgnoreIntersectionKHR, 4448u)
E(Op, OpTerminateRayKHR, 4449u)
E(Op, OpSDot, 4450u)
E(Op, OpSDotKHR, 4450u)
E(Op, OpUDot, 4451u)
E(Op, OpUDotKHR, 4451u)
E(Op, OpSUDot, 4452u)
E(Op, OpSUDotKHR, 4452u)
E(Op, OpSDotAccSat, 4453u)
E(Op, OpSDotAccSatKHR, 4453u)
E(Op, OpUDotAccSat, 4454u)
E(Op, OpUDotAccSatKHR, 4454u)
E(Op, OpSUDotAccSat, 4455u)
E(Op, OpSUDotAccSatKHR, 4455u)
E(Op, OpTypeCooperativeMatrixKHR, 4456u)
E(Op, OpCooperativeMatrixLoadKHR, 4457u)
E(Op, OpCooperativeMatrixStoreKHR, 4458u)
E(Op, OpCooperativeMatrixMulAddKHR, 4459u)
E(Op, OpCooperativeMatrixLengthKHR, 4460u)
E(Op, OpTypeRayQueryKHR, 4472u)
E(Op, OpRayQueryInitializeKHR, 4473u)
E(Op, OpRayQueryTerminateKHR, 4474u)
E(Op, OpRayQueryGenerateIntersectionKHR, 4475u)
E(Op, OpRayQueryConfirmIntersectionKHR, 4476u)
E(Op, OpRayQueryProceedKHR, 4477u)
E(Op, OpRayQueryGetIntersectionTypeKHR, 4479u)
E(Op, OpImageSampleWeightedQCOM, 4480u)
E(Op, OpImageBoxFilterQCOM, 4481u)
E(Op, OpImageBlockMatchSSDQCOM, 4482u)
E(Op, OpImageBlockMatchSADQCOM, 4483u)
E(Op, OpGroupIAddNonUniformAMD, 5000u)
E(Op, OpGroupFAddNonUniformAMD, 5001u)
E(Op, OpGroupFMinNonUniformAMD, 5002u)
E(Op, OpGroupUMinNonUniformAMD, 5003u)
E(Op, OpGroupSMinNonUniformAMD, 5004u)
E(Op, OpGroupFMaxNonUniformAMD, 5005u)
E(Op, OpGroupUMaxNonUniformAMD, 5006u)
E(Op, OpGroupSMaxNonUniformAMD, 5007u)
E(Op, OpFragmentMaskFetchAMD, 5011u)
E(Op, OpFragmentFetchAMD, 5012u)
E(Op, OpReadClockKHR, 5056u)
E(Op, OpFinalizeNodePayloadsAMDX, 5075u)
E(Op, OpFinishWritingNodePayloadAMDX, 5078u)
E(Op, OpInitializeNodePayloadsAMDX, 5090u)
E(Op, OpHitObjectRecordHitMotionNV, 5249u)
E(Op, OpHitObjectRecordHitWithIndexMotionNV, 5250u)
E(Op, OpHitObjectRecordMissMotionNV, 5251u)
E(Op, OpHitObjectGetWorldToObjectNV, 5252u)
E(Op, OpHitObjectGetObjectToWorldNV, 5253u)
E(Op, OpHitObjectGetObjectRayDirectionNV, 5254u)
E(Op, OpHitObjectGetObjectRayOriginNV, 5255u)
E(Op, OpHitObjectTraceRayMotionNV, 5256u)
E(Op, OpHitObjectGetShaderRecordBufferHandleNV, 5257u)
E(Op, OpHitObjectGetShaderBindingTableRecordIndexNV, 5258u)
E(Op, OpHitObjectRecordEmptyNV, 5259u)
E(Op, OpHitObjectTraceRayNV, 5260u)
E(Op, OpHitObjectRecordHitNV, 5261u)
E(Op, OpHitObjectRecordHitWithIndexNV, 5262u)
E(Op, OpHitObjectRecordMissNV, 5263u)
E(Op, OpHitObjectExecuteShaderNV, 5264u)
E(Op, OpHitObjectGetCurrentTimeNV, 5265u)
E(Op, OpHitObjectGetAttributesNV, 5266u)
E(Op, OpHitObjectGetHitKindNV, 5267u)
E(Op, OpHitObjectGetPrimitiveIndexNV, 5268u)
E(Op, OpHitObjectGetGeometryIndexNV, 5269u)
E(Op, OpHitObjectGetInstanceIdNV, 5270u)
E(Op, OpHitObjectGetInstanceCustomIndexNV, 5271u)
E(Op, OpHitObjectGetWorldRayDirectionNV, 5272u)
E(Op, OpHitObjectGetWorldRayOriginNV, 5273u)
E(Op, OpHitObjectGetRayTMaxNV, 5274u)
E(Op, OpHitObjectGetRayTMinNV, 5275u)
E(Op, OpHitObjectIsEmptyNV, 5276u)
E(Op, OpHitObjectIsHitNV, 5277u)
E(Op, OpHitObjectIsMissNV, 5278u)
E(Op, OpReorderThreadWithHitObjectNV, 5279u)
E(Op, OpReorderThreadWithHintNV, 5280u)
E(Op, OpTypeHitObjectNV, 5281u)
E(Op, OpImageSampleFootprintNV, 5283u)
E(Op, OpEmitMeshTasksEXT, 5294u)
E(Op, OpSetMeshOutputsEXT, 5295u)
E(Op, OpGroupNonUniformPartitionNV, 5296u)
E(Op, OpWritePackedPrimitiveIndices4x8NV, 5299u)
E(Op, OpReportIntersectionNV, 5334u)
E(Op, OpReportIntersectionKHR, 5334u)
E(Op, OpIgnoreIntersectionNV, 5335u)
E(Op, OpTerminateRayNV, 5336u)
E(Op, OpTraceNV, 5337u)
E(Op, OpTraceMotionNV, 5338u)
E(Op, OpTraceRayMotionNV, 5339u)
E(Op, OpRayQueryGetIntersectionTriangleVertexPositionsKHR, 5340u)
E(Op, OpTypeAccelerationStructureNV, 5341u)
E(Op, OpTypeAccelerationStructureKHR, 5341u)
E(Op, OpExecuteCallableNV, 5344u)
E(Op, OpTypeCooperativeMatrixNV, 5358u)
E(Op, OpCooperativeMatrixLoadNV, 5359u)
E(Op, OpCooperativeMatrixStoreNV, 5360u)
E(Op, OpCooperativeMatrixMulAddNV, 5361u)
E(Op, OpCooperativeMatrixLengthNV, 5362u)
E(Op, OpBeginInvocationInterlockEXT, 5364u)
E(Op, OpEndInvocationInterlockEXT, 5365u)
E(Op, OpDemoteToHelperInvocation, 5380u)
E(Op, OpDemoteToHelperInvocationEXT, 5380u)
E(Op, OpIsHelperInvocationEXT, 5381u)
E(Op, OpConvertUToImageNV, 5391u)
E(Op, OpConvertUToSamplerNV, 5392u)
E(Op, OpConvertImageToUNV, 5393u)
E(Op, OpConvertSamplerToUNV, 5394u)
E(Op, OpConvertUToSampledImageNV, 5395u)
E(Op, OpConvertSampledImageToUNV, 5396u)
E(Op, OpSamplerImageAddressingModeNV, 5397u)
E(Op, OpSubgroupShuffleINTEL, 5571u)
E(Op, OpSubgroupShuffleDownINTEL, 5572u)
E(Op, OpSubgroupShuffleUpINTEL, 5573u)
E(Op, OpSubgroupShuffleXorINTEL, 5574u)
E(Op, OpSubgroupBlockReadINTEL, 5575u)
E(Op, OpSubgroupBlockWriteINTEL, 5576u)
E(Op, OpSubgroupImageBlockReadINTEL, 5577u)
E(Op, OpSubgroupImageBlockWriteINTEL, 5578u)
E(Op, OpSubgroupImageMediaBlockReadINTEL, 5580u)
E(Op, OpSubgroupImageMediaBlockWriteINTEL, 5581u)
E(Op, OpUCountLeadingZerosINTEL, 5585u)
E(Op, OpUCountTrailingZerosINTEL, 5586u)
E(Op, OpAbsISubINTEL, 5587u)
E(Op, OpAbsUSubINTEL, 5588u)
E(Op, OpIAddSatINTEL, 5589u)
E(Op, OpUAddSatINTEL, 5590u)
E(Op, OpIAverageINTEL, 5591u)
E(Op, OpUAverageINTEL, 5592u)
E(Op, OpIAverageRoundedINTEL, 5593u)
E(Op, OpUAverageRoundedINTEL, 5594u)
E(Op, OpISubSatINTEL, 5595u)
E(Op, OpUSubSatINTEL, 5596u)
E(Op, OpIMul32x16INTEL, 5597u)
E(Op, OpUMul32x16INTEL, 5598u)
E(Op, OpConstantFunctionPointerINTEL, 5600u)
E(Op, OpFunctionPointerCallINTEL, 5601u)
E(Op, OpAsmTargetINTEL, 5609u)
E(Op, OpAsmINTEL, 5610u)
E(Op, OpAsmCallINTEL, 5611u)
E(Op, OpAtomicFMinEXT, 5614u)
E(Op, OpAtomicFMaxEXT, 5615u)
E(Op, OpAssumeTrueKHR, 5630u)
E(Op, OpExpectKHR, 5631u)
E(Op, OpDecorateString, 5632u)
E(Op, OpDecorateStringGOOGLE, 5632u)
E(Op, OpMemberDecorateString, 5633u)
E(Op, OpMemberDecorateStringGOOGLE, 5633u)
E(Op, OpVmeImageINTEL, 5699u)
E(Op, OpTypeVmeImageINTEL, 5700u)
E(Op, OpTypeAvcImePayloadINTEL, 5701u)
E(Op, OpTypeAvcRefPayloadINTEL, 5702u)
E(Op, OpTypeAvcSicPayloadINTEL, 5703u)
E(Op, OpTypeAvcMcePayloadINTEL, 5704u)
E(Op, OpTypeAvcMceResultINTEL, 5705u)
E(Op, OpTypeAvcImeResultINTEL, 5706u)
E(Op, OpTypeAvcImeResultSingleReferenceStreamoutINTEL, 5707u)
E(Op, OpTypeAvcImeResultDualReferenceStreamoutINTEL, 5708u)
E(Op, OpTypeAvcImeSingleReferenceStreaminINTEL, 5709u)
E(Op, OpTypeAvcImeDualReferenceStreaminINTEL, 5710u)
E(Op, OpTypeAvcRefResultINTEL, 5711u)
E(Op, OpTypeAvcSicResultINTEL, 5712u)
E(Op, OpSubgroupAvcMceGetDefaultInterBaseMultiReferencePenaltyINTEL, 5713u)
E(Op, OpSubgroupAvcMceSetInterBaseMultiReferencePenaltyINTEL, 5714u)
E(Op, OpSubgroupAvcMceGetDefaultInterShapePenaltyINTEL, 5715u)
E(Op, OpSubgroupAvcMceSetInterShapePenaltyINTEL, 5716u)
E(Op, OpSubgroupAvcMceGetDefaultInterDirectionPenaltyINTEL, 5717u)
E(Op, OpSubgroupAvcMceSetInterDirectionPenaltyINTEL, 5718u)
E(Op, OpSubgroupAvcMceGetDefaultIntraLumaShapePenaltyINTEL, 5719u)
E(Op, OpSubgroupAvcMceGetDefaultInterMotionVectorCostTableINTEL, 5720u)
E(Op, OpSubgroupAvcMceGetDefaultHighPenaltyCostTableINTEL, 5721u)
E(Op, OpSubgroupAvcMceGetDefaultMediumPenaltyCostTableINTEL, 5722u)
E(Op, OpSubgroupAvcMceGetDefaultLowPenaltyCostTableINTEL, 5723u)
E(Op, OpSubgroupAvcMceSetMotionVectorCostFunctionINTEL, 5724u)
E(Op, OpSubgroupAvcMceGetDefaultIntraLumaModePenaltyINTEL, 5725u)
E(Op, OpSubgroupAvcMceGetDefaultNonDcLumaIntraPenaltyINTEL, 5726u)
E(Op, OpSubgroupAvcMceGetDefaultIntraChromaModeBasePenaltyINTEL, 5727u)
E(Op, OpSubgroupAvcMceSetAcOnlyHaarINTEL, 5728u)
E(Op, OpSubgroupAvcMceSetSourceInterlacedFieldPolarityINTEL, 5729u)
E(Op, OpSubgroupAvcMceSetSingleReferenceInterlacedFieldPolarityINTEL, 5730u)
E(Op, OpSubgroupAvcMceSetDualReferenceInterlacedFieldPolaritiesINTEL, 5731u)
E(Op, OpSubgroupAvcMceConvertToImePayloadINTEL, 5732u)
E(Op, OpSubgroupAvcMceConvertToImeResultINTEL, 5733u)
E(Op, OpSubgroupAvcMceConvertToRefPayloadINTEL, 5734u)
E(Op, OpSubgroupAvcMceConvertToRefResultINTEL, 5735u)
E(Op, OpSubgroupAvcMceConvertToSicPayloadINTEL, 5736u)
E(Op, OpSubgroupAvcMceConvertToSicResultINTEL, 5737u)
E(Op, OpSubgroupAvcMceGetMotionVectorsINTEL, 5738u)
E(Op, OpSubgroupAvcMceGetInterDistortionsINTEL, 5739u)
E(Op, OpSubgroupAvcMceGetBestInterDistortionsINTEL, 5740u)
E(Op, OpSubgroupAvcMceGetInterMajorShapeINTEL, 5741u)
E(Op, OpSubgroupAvcMceGetInterMinorShapeINTEL, 5742u)
E(Op, OpSubgroupAvcMceGetInterDirectionsINTEL, 5743u)
E(Op, OpSubgroupAvcMceGetInterMotionVectorCountINTEL, 5744u)
E(Op, OpSubgroupAvcMceGetInterReferenceIdsINTEL, 5745u)
E(Op, OpSubgroupAvcMceGetInterReferenceInterlacedFieldPolaritiesINTEL, 5746u)
E(Op, OpSubgroupAvcImeInitializeINTEL, 5747u)
E(Op, OpSubgroupAvcImeSetSingleReferenceINTEL, 5748u)
E(Op, OpSubgroupAvcImeSetDualReferenceINTEL, 5749u)
E(Op, OpSubgroupAvcImeRefWindowSizeINTEL, 5750u)
E(Op, OpSubgroupAvcImeAdjustRefOffsetINTEL, 5751u)
E(Op, OpSubgroupAvcImeConvertToMcePayloadINTEL, 5752u)
E(Op, OpSubgroupAvcImeSetMaxMotionVectorCountINTEL, 5753u)
E(Op, OpSubgroupAvcImeSetUnidirectionalMixDisableINTEL, 5754u)
E(Op, OpSubgroupAvcImeSetEarlySearchTerminationThresholdINTEL, 5755u)
E(Op, OpSubgroupAvcImeSetWeightedSadINTEL, 5756u)
E(Op, OpSubgroupAvcImeEvaluateWithSingleReferenceINTEL, 5757u)
E(Op, OpSubgroupAvcImeEvaluateWithDualReferenceINTEL, 5758u)
E(Op, OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminINTEL, 5759u)
E(Op, OpSubgroupAvcImeEvaluateWithDualReferenceStreaminINTEL, 5760u)
E(Op, OpSubgroupAvcImeEvaluateWithSingleReferenceStreamoutINTEL, 5761u)
E(Op, OpSubgroupAvcImeEvaluateWithDualReferenceStreamoutINTEL, 5762u)
E(Op, OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminoutINTEL, 5763u)
E(Op, OpSubgroupAvcImeEvaluateWithDualReferenceStreaminoutINTEL, 5764u)
E(Op, OpSubgroupAvcImeConvertToMceResultINTEL, 5765u)
E(Op, OpSubgroupAvcImeGetSingleReferenceStreaminINTEL, 5766u)
E(Op, OpSubgroupAvcImeGetDualReferenceStreaminINTEL, 5767u)
E(Op, OpSubgroupAvcImeStripSingleReferenceStreamoutINTEL, 5768u)
E(Op, OpSubgroupAvcImeStripDualReferenceStreamoutINTEL, 5769u)
E(Op, OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeMotionVectorsINTEL, 5770u)
E(Op, OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeDistortionsINTEL, 5771u)
E(Op, OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeReferenceIdsINTEL, 5772u)
E(Op, OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeMotionVectorsINTEL, 5773u)
E(Op, OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeDistortionsINTEL, 5774u)
E(Op, OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeReferenceIdsINTEL, 5775u)
E(Op, OpSubgroupAvcImeGetBorderReachedINTEL, 5776u)
E(Op, OpSubgroupAvcImeGetTruncatedSearchIndicationINTEL, 5777u)
E(Op, OpSubgroupAvcImeGetUnidirectionalEarlySearchTerminationINTEL, 5778u)
E(Op, OpSubgroupAvcImeGetWeightingPatternMinimumMotionVectorINTEL, 5779u)
E(Op, OpSubgroupAvcImeGetWeightingPatternMinimumDistortionINTEL, 5780u)
E(Op, OpSubgroupAvcFmeInitializeINTEL, 5781u)
E(Op, OpSubgroupAvcBmeInitializeINTEL, 5782u)
E(Op, OpSubgroupAvcRefConvertToMcePayloadINTEL, 5783u)
E(Op, OpSubgroupAvcRefSetBidirectionalMixDisableINTEL, 5784u)
E(Op, OpSubgroupAvcRefSetBilinearFilterEnableINTEL, 5785u)
E(Op, OpSubgroupAvcRefEvaluateWithSingleReferenceINTEL, 5786u)
E(Op, OpSubgroupAvcRefEvaluateWithDualReferenceINTEL, 5787u)
E(Op, OpSubgroupAvcRefEvaluateWithMultiReferenceINTEL, 5788u)
E(Op, OpSubgroupAvcRefEvaluateWithMultiReferenceInterlacedINTEL, 5789u)
E(Op, OpSubgroupAvcRefConvertToMceResultINTEL, 5790u)
E(Op, OpSubgroupAvcSicInitializeINTEL, 5791u)
E(Op, OpSubgroupAvcSicConfigureSkcINTEL, 5792u)
E(Op, OpSubgroupAvcSicConfigureIpeLumaINTEL, 5793u)
E(Op, OpSubgroupAvcSicConfigureIpeLumaChromaINTEL, 5794u)
E(Op, OpSubgroupAvcSicGetMotionVectorMaskINTEL, 5795u)
E(Op, OpSubgroupAvcSicConvertToMcePayloadINTEL, 5796u)
E(Op, OpSubgroupAvcSicSetIntraLumaShapePenaltyINTEL, 5797u)
E(Op, OpSubgroupAvcSicSetIntraLumaModeCostFunctionINTEL, 5798u)
E(Op, OpSubgroupAvcSicSetIntraChromaModeCostFunctionINTEL, 5799u)
E(Op, OpSubgroupAvcSicSetBilinearFilterEnableINTEL, 5800u)
E(Op, OpSubgroupAvcSicSetSkcForwardTransformEnableINTEL, 5801u)
E(Op, OpSubgroupAvcSicSetBlockBasedRawSkipSadINTEL, 5802u)
E(Op, OpSubgroupAvcSicEvaluateIpeINTEL, 5803u)
E(Op, OpSubgroupAvcSicEvaluateWithSingleReferenceINTEL, 5804u)
E(Op, OpSubgroupAvcSicEvaluateWithDualReferenceINTEL, 5805u)
E(Op, OpSubgroupAvcSicEvaluateWithMultiReferenceINTEL, 5806u)
E(Op, OpSubgroupAvcSicEvaluateWithMultiReferenceInterlacedINTEL, 5807u)
E(Op, OpSubgroupAvcSicConvertToMceResultINTEL, 5808u)
E(Op, OpSubgroupAvcSicGetIpeLumaShapeINTEL, 5809u)
E(Op, OpSubgroupAvcSicGetBestIpeLumaDistortionINTEL, 5810u)
E(Op, OpSubgroupAvcSicGetBestIpeChromaDistortionINTEL, 5811u)
E(Op, OpSubgroupAvcSicGetPackedIpeLumaModesINTEL, 5812u)
E(Op, OpSubgroupAvcSicGetIpeChromaModeINTEL, 5813u)
E(Op, OpSubgroupAvcSicGetPackedSkcLumaCountThresholdINTEL, 5814u)
E(Op, OpSubgroupAvcSicGetPackedSkcLumaSumThresholdINTEL, 5815u)
E(Op, OpSubgroupAvcSicGetInterRawSadsINTEL, 5816u)
E(Op, OpVariableLengthArrayINTEL, 5818u)
E(Op, OpSaveMemoryINTEL, 5819u)
E(Op, OpRestoreMemoryINTEL, 5820u)
E(Op, OpArbitraryFloatSinCosPiINTEL, 5840u)
E(Op, OpArbitraryFloatCastINTEL, 5841u)
E(Op, OpArbitraryFloatCastFromIntINTEL, 5842u)
E(Op, OpArbitraryFloatCastToIntINTEL, 5843u)
E(Op, OpArbitraryFloatAddINTEL, 5846u)
E(Op, OpArbitraryFloatSubINTEL, 5847u)
E(Op, OpArbitraryFloatMulINTEL, 5848u)
E(Op, OpArbitraryFloatDivINTEL, 5849u)
E(Op, OpArbitraryFloatGTINTEL, 5850u)
E(Op, OpArbitraryFloatGEINTEL, 5851u)
E(Op, OpArbitraryFloatLTINTEL, 5852u)
E(Op, OpArbitraryFloatLEINTEL, 5853u)
E(Op, OpArbitraryFloatEQINTEL, 5854u)
E(Op, OpArbitraryFloatRecipINTEL, 5855u)
E(Op, OpArbitraryFloatRSqrtINTEL, 5856u)
E(Op, OpArbitraryFloatCbrtINTEL, 5857u)
E(Op, OpArbitraryFloatHypotINTEL, 5858u)
E(Op, OpArbitraryFloatSqrtINTEL, 5859u)
E(Op, OpArbitraryFloatLogINTEL, 5860u)
E(Op, OpArbitraryFloatLog2INTEL, 5861u)
E(Op, OpArbitraryFloatLog10INTEL, 5862u)
E(Op, OpArbitraryFloatLog1pINTEL, 5863u)
E(Op, OpArbitraryFloatExpINTEL, 5864u)
E(Op, OpArbitraryFloatExp2INTEL, 5865u)
E(Op, OpArbitraryFloatExp10INTEL, 5866u)
E(Op, OpArbitraryFloatExpm1INTEL, 5867u)
E(Op, OpArbitraryFloatSinINTEL, 5868u)
E(Op, OpArbitraryFloatCosINTEL, 5869u)
E(Op, OpArbitraryFloatSinCosINTEL, 5870u)
E(Op, OpArbitraryFloatSinPiINTEL, 5871u)
E(Op, OpArbitraryFloatCosPiINTEL, 5872u)
E(Op, OpArbitraryFloatASinINTEL, 5873u)
E(Op, OpArbitraryFloatASinPiINTEL, 5874u)
E(Op, OpArbitraryFloatACosINTEL, 5875u)
E(Op, OpArbitraryFloatACosPiINTEL, 5876u)
E(Op, OpArbitraryFloatATanINTEL, 5877u)
E(Op, OpArbitraryFloatATanPiINTEL, 5878u)
E(Op, OpArbitraryFloatATan2INTEL, 5879u)
E(Op, OpArbitraryFloatPowINTEL, 5880u)
E(Op, OpArbitraryFloatPowRINTEL, 5881u)
E(Op, OpArbitraryFloatPowNINTEL, 5882u)
E(Op, OpLoopControlINTEL, 5887u)
E(Op, OpAliasDomainDeclINTEL, 5911u)
E(Op, OpAliasScopeDeclINTEL, 5912u)
E(Op, OpAliasScopeListDeclINTEL, 5913u)
E(Op, OpFixedSqrtINTEL, 5923u)
E(Op, OpFixedRecipINTEL, 5924u)
E(Op, OpFixedRsqrtINTEL, 5925u)
E(Op, OpFixedSinINTEL, 5926u)
E(Op, OpFixedCosINTEL, 5927u)
E(Op, OpFixedSinCosINTEL, 5928u)
E(Op, OpFixedSinPiINTEL, 5929u)
E(Op, OpFixedCosPiINTEL, 5930u)
E(Op, OpFixedSinCosPiINTEL, 5931u)
E(Op, OpFixedLogINTEL, 5932u)
E(Op, OpFixedExpINTEL, 5933u)
E(Op, OpPtrCastToCrossWorkgroupINTEL, 5934u)
E(Op, OpCrossWorkgroupCastToPtrINTEL, 5938u)
E(Op, OpReadPipeBlockingINTEL, 5946u)
E(Op, OpWritePipeBlockingINTEL, 5947u)
E(Op, OpFPGARegINTEL, 5949u)
E(Op, OpRayQueryGetRayTMinKHR, 6016u)
E(Op, OpRayQueryGetRayFlagsKHR, 6017u)
E(Op, OpRayQueryGetIntersectionTKHR, 6018u)
E(Op, OpRayQueryGetIntersectionInstanceCustomIndexKHR, 6019u)
E(Op, OpRayQueryGetIntersectionInstanceIdKHR, 6020u)
E(Op, OpRayQueryGetIntersectionInstanceShaderBindingTableRecordOffsetKHR, 6021u)
E(Op, OpRayQueryGetIntersectionGeometryIndexKHR, 6022u)
E(Op, OpRayQueryGetIntersectionPrimitiveIndexKHR, 6023u)
E(Op, OpRayQueryGetIntersectionBarycentricsKHR, 6024u)
E(Op, OpRayQueryGetIntersectionFrontFaceKHR, 6025u)
E(Op, OpRayQueryGetIntersectionCandidateAABBOpaqueKHR, 6026u)
E(Op, OpRayQueryGetIntersectionObjectRayDirectionKHR, 6027u)
E(Op, OpRayQueryGetIntersectionObjectRayOriginKHR, 6028u)
E(Op, OpRayQueryGetWorldRayDirectionKHR, 6029u)
E(Op, OpRayQueryGetWorldRayOriginKHR, 6030u)
E(Op, OpRayQueryGetIntersectionObjectToWorldKHR, 6031u)
E(Op, OpRayQueryGetIntersectionWorldToObjectKHR, 6032u)
E(Op, OpAtomicFAddEXT, 6035u)
E(Op, OpTypeBufferSurfaceINTEL, 6086u)
E(Op, OpTypeStructContinuedINTEL, 6090u)
E(Op, OpConstantCompositeContinuedINTEL, 6091u)
E(Op, OpSpecConstantCompositeContinuedINTEL, 6092u)
E(Op, OpConvertFToBF16INTEL, 6116u)
E(Op, OpConvertBF16ToFINTEL, 6117u)
E(Op, OpControlBarrierArriveINTEL, 6142u)
E(Op, OpControlBarrierWaitINTEL, 6143u)
E(Op, OpGroupIMulKHR, 6401u)
E(Op, OpGroupFMulKHR, 6402u)
E(Op, OpGroupBitwiseAndKHR, 6403u)
E(Op, OpGroupBitwiseOrKHR, 6404u)
E(Op, OpGroupBitwiseXorKHR, 6405u)
E(Op, OpGroupLogicalAndKHR, 6406u)
E(Op, OpGroupLogicalOrKHR, 6407u)
E(Op, OpGroupLogicalXorKHR, 6408u)
G(Round, 1u)
G(RoundEven, 2u)
G(Trunc, 3u)
G(FAbs, 4u)
G(SAbs, 5u)
G(FSign, 6u)
G(SSign, 7u)
G(Floor, 8u)
G(Ceil, 9u)
G(Fract, 10u)
G(Radians, 11u)
G(Degrees, 12u)
G(Sin, 13u)
G(Cos, 14u)
G(Tan, 15u)
G(Asin, 16u)
G(Acos, 17u)
G(Atan, 18u)
G(Sinh, 19u)
G(Cosh, 20u)
G(Tanh, 21u)
G(Asinh, 22u)
G(Acosh, 23u)
G(Atanh, 24u)
G(Atan2, 25u)
G(Pow, 26u)
G(Exp, 27u)
G(Log, 28u)
G(Exp2, 29u)
G(Log2, 30u)
G(Sqrt, 31u)
G(InverseSqrt, 32u)
G(Determinant, 33u)
G(MatrixInverse, 34u)
G(Modf, 35u)
G(ModfStruct, 36u)
G(FMin, 37u)
G(UMin, 38u)
G(SMin, 39u)
G(FMax, 40u)
G(UMax, 41u)
G(SMax, 42u)
G(FClamp, 43u)
G(UClamp, 44u)
G(SClamp, 45u)
G(FMix, 46u)
G(IMix, 47u)
G(Step, 48u)
G(SmoothStep, 49u)
G(Fma, 50u)
G(Frexp, 51u)
G(FrexpStruct, 52u)
G(Ldexp, 53u)
G(PackSnorm4x8, 54u)
G(PackUnorm4x8, 55u)
G(PackSnorm2x16, 56u)
G(PackUnorm2x16, 57u)
G(PackHalf2x16, 58u)
G(PackDouble2x32, 59u)
G(UnpackSnorm2x16, 60u)
G(UnpackUnorm2x16, 61u)
G(UnpackHalf2x16, 62u)
G(UnpackSnorm4x8, 63u)
G(UnpackUnorm4x8, 64u)
G(UnpackDouble2x32, 65u)
G(Length, 66u)
G(Distance, 67u)
G(Cross, 68u)
G(Normalize, 69u)
G(FaceForward, 70u)
G(Reflect, 71u)
G(Refract, 72u)
G(FindILsb, 73u)
G(FindSMsb, 74u)
G(FindUMsb, 75u)
G(InterpolateAtCentroid, 76u)
G(InterpolateAtSample, 77u)
G(InterpolateAtOffset, 78u)
G(NMin, 79u)
G(NMax, 80u)
G(NClamp, 81u)
O(acos, 0u)
O(acosh, 1u)
O(acospi, 2u)
O(asin, 3u)
O(asinh, 4u)
O(asinpi, 5u)
O(atan, 6u)
O(atan2, 7u)
O(atanh, 8u)
O(atanpi, 9u)
O(atan2pi, 10u)
O(cbrt, 11u)
O(ceil, 12u)
O(copysign, 13u)
O(cos, 14u)
O(cosh, 15u)
O(cospi, 16u)
O(erfc, 17u)
O(erf, 18u)
O(exp, 19u)
O(exp2, 20u)
O(exp10, 21u)
O(expm1, 22u)
O(fabs, 23u)
O(fdim, 24u)
O(floor, 25u)
O(fma, 26u)
O(fmax, 27u)
O(fmin, 28u)
O(fmod, 29u)
O(fract, 30u)
O(frexp, 31u)
O(hypot, 32u)
O(ilogb, 33u)
O(ldexp, 34u)
O(lgamma, 35u)
O(lgamma_r, 36u)
O(log, 37u)
O(log2, 38u)
O(log10, 39u)
O(log1p, 40u)
O(logb, 41u)
O(mad, 42u)
O(maxmag, 43u)
O(minmag, 44u)
O(modf, 45u)
O(nan, 46u)
O(nextafter, 47u)
O(pow, 48u)
O(pown, 49u)
O(powr, 50u)
O(remainder, 51u)
O(remquo, 52u)
O(rint, 53u)
O(rootn, 54u)
O(round, 55u)
O(rsqrt, 56u)
O(sin, 57u)
O(sincos, 58u)
O(sinh, 59u)
O(sinpi, 60u)
O(sqrt, 61u)
O(tan, 62u)
O(tanh, 63u)
O(tanpi, 64u)
O(tgamma, 65u)
O(trunc, 66u)
O(half_cos, 67u)
O(half_divide, 68u)
O(half_exp, 69u)
O(half_exp2, 70u)
O(half_exp10, 71u)
O(half_log, 72u)
O(half_log2, 73u)
O(half_log10, 74u)
O(half_powr, 75u)
O(half_recip, 76u)
O(half_rsqrt, 77u)
O(half_sin, 78u)
O(half_sqrt, 79u)
O(half_tan, 80u)
O(native_cos, 81u)
O(native_divide, 82u)
O(native_exp, 83u)
O(native_exp2, 84u)
O(native_exp10, 85u)
O(native_log, 86u)
O(native_log2, 87u)
O(native_log10, 88u)
O(native_powr, 89u)
O(native_recip, 90u)
O(native_rsqrt, 91u)
O(native_sin, 92u)
O(native_sqrt, 93u)
O(native_tan, 94u)
O(s_abs, 141u)
O(s_abs_diff, 142u)
O(s_add_sat, 143u)
O(u_add_sat, 144u)
O(s_hadd, 145u)
O(u_hadd, 146u)
O(s_rhadd, 147u)
O(u_rhadd, 148u)
O(s_clamp, 149u)
O(u_clamp, 150u)
O(clz, 151u)
O(ctz, 152u)
O(s_mad_hi, 153u)
O(u_mad_sat, 154u)
O(s_mad_sat, 155u)
O(s_max, 156u)
O(u_max, 157u)
O(s_min, 158u)
O(u_min, 159u)
O(s_mul_hi, 160u)
O(rotate, 161u)
O(s_sub_sat, 162u)
O(u_sub_sat, 163u)
O(u_upsample, 164u)
O(s_upsample, 165u)
O(popcount, 166u)
O(s_mad24, 167u)
O(u_mad24, 168u)
O(s_mul24, 169u)
O(u_mul24, 170u)
O(u_abs, 201u)
O(u_abs_diff, 202u)
O(u_mul_hi, 203u)
O(u_mad_hi, 204u)
O(fclamp, 95u)
O(degrees, 96u)
O(fmax_common, 97u)
O(fmin_common, 98u)
O(mix, 99u)
O(radians, 100u)
O(step, 101u)
O(smoothstep, 102u)
O(sign, 103u)
O(cross, 104u)
O(distance, 105u)
O(length, 106u)
O(normalize, 107u)
O(fast_distance, 108u)
O(fast_length, 109u)
O(fast_normalize, 110u)
O(bitselect, 186u)
O(select, 187u)
O(vloadn, 171u)
O(vstoren, 172u)
O(vload_half, 173u)
O(vload_halfn, 174u)
O(vstore_half, 175u)
O(vstore_half_r, 176u)
O(vstore_halfn, 177u)
O(vstore_halfn_r, 178u)
O(vloada_halfn, 179u)
O(vstorea_halfn, 180u)
O(vstorea_halfn_r, 181u)
O(shuffle, 182u)
O(shuffle2, 183u)
O(printf, 184u)
O(prefetch, 185u)
X(SPV_AMDX_shader_enqueue)
X(SPV_AMD_gpu_shader_half_float_fetch)
X(SPV_AMD_shader_ballot)
X(SPV_AMD_shader_early_and_late_fragment_tests)
X(SPV_AMD_shader_explicit_vertex_parameter)
X(SPV_AMD_shader_fragment_mask)
X(SPV_AMD_shader_image_load_store_lod)
X(SPV_AMD_texture_gather_bias_lod)
X(SPV_ARM_core_builtins)
X(SPV_EXT_demote_to_helper_invocation)
X(SPV_EXT_descriptor_indexing)
X(SPV_EXT_fragment_fully_covered)
X(SPV_EXT_fragment_invocation_density)
X(SPV_EXT_fragment_shader_interlock)
X(SPV_EXT_mesh_shader)
X(SPV_EXT_opacity_micromap)
X(SPV_EXT_physical_storage_buffer)
X(SPV_EXT_shader_atomic_float16_add)
X(SPV_EXT_shader_atomic_float_add)
X(SPV_EXT_shader_atomic_float_min_max)
X(SPV_EXT_shader_image_int64)
X(SPV_EXT_shader_stencil_export)
X(SPV_EXT_shader_tile_image)
X(SPV_EXT_shader_viewport_index_layer)
X(SPV_GOOGLE_decorate_string)
X(SPV_GOOGLE_hlsl_functionality1)
X(SPV_GOOGLE_user_type)
X(SPV_INTEL_arbitrary_precision_fixed_point)
X(SPV_INTEL_arbitrary_precision_floating_point)
X(SPV_INTEL_arbitrary_precision_integers)
X(SPV_INTEL_bfloat16_conversion)
X(SPV_INTEL_blocking_pipes)
X(SPV_INTEL_cache_controls)
X(SPV_INTEL_debug_module)
X(SPV_INTEL_device_side_avc_motion_estimation)
X(SPV_INTEL_float_controls2)
X(SPV_INTEL_fp_fast_math_mode)
X(SPV_INTEL_fp_max_error)
X(SPV_INTEL_fpga_argument_interfaces)
X(SPV_INTEL_fpga_buffer_location)
X(SPV_INTEL_fpga_cluster_attributes)
X(SPV_INTEL_fpga_dsp_control)
X(SPV_INTEL_fpga_invocation_pipelining_attributes)
X(SPV_INTEL_fpga_latency_control)
X(SPV_INTEL_fpga_loop_controls)
X(SPV_INTEL_fpga_memory_accesses)
X(SPV_INTEL_fpga_memory_attributes)
X(SPV_INTEL_fpga_reg)
X(SPV_INTEL_function_pointers)
X(SPV_INTEL_global_variable_fpga_decorations)
X(SPV_INTEL_global_variable_host_access)
X(SPV_INTEL_inline_assembly)
X(SPV_INTEL_io_pipes)
X(SPV_INTEL_kernel_attributes)
X(SPV_INTEL_long_constant_composite)
X(SPV_INTEL_loop_fuse)
X(SPV_INTEL_media_block_io)
X(SPV_INTEL_memory_access_aliasing)
X(SPV_INTEL_optnone)
X(SPV_INTEL_runtime_aligned)
X(SPV_INTEL_shader_integer_functions2)
X(SPV_INTEL_split_barrier)
X(SPV_INTEL_subgroups)
X(SPV_INTEL_unstructured_loop_controls)
X(SPV_INTEL_usm_storage_classes)
X(SPV_INTEL_variable_length_array)
X(SPV_INTEL_vector_compute)
X(SPV_KHR_16bit_storage)
X(SPV_KHR_8bit_storage)
X(SPV_KHR_bit_instructions)
X(SPV_KHR_cooperative_matrix)
X(SPV_KHR_device_group)
X(SPV_KHR_expect_assume)
X(SPV_KHR_float_controls)
X(SPV_KHR_fragment_shader_barycentric)
X(SPV_KHR_fragment_shading_rate)
X(SPV_KHR_integer_dot_product)
X(SPV_KHR_linkonce_odr)
X(SPV_KHR_multiview)
X(SPV_KHR_no_integer_wrap_decoration)
X(SPV_KHR_physical_storage_buffer)
X(SPV_KHR_post_depth_coverage)
X(SPV_KHR_ray_cull_mask)
X(SPV_KHR_ray_query)
X(SPV_KHR_ray_tracing)
X(SPV_KHR_ray_tracing_position_fetch)
X(SPV_KHR_shader_atomic_counter_ops)
X(SPV_KHR_shader_ballot)
X(SPV_KHR_shader_clock)
X(SPV_KHR_shader_draw_parameters)
X(SPV_KHR_storage_buffer_storage_class)
X(SPV_KHR_subgroup_rotate)
X(SPV_KHR_subgroup_uniform_control_flow)
X(SPV_KHR_subgroup_vote)
X(SPV_KHR_terminate_invocation)
X(SPV_KHR_uniform_group_instructions)
X(SPV_KHR_variable_pointers)
X(SPV_KHR_vulkan_memory_model)
X(SPV_KHR_workgroup_memory_explicit_layout)
X(SPV_NVX_multiview_per_view_attributes)
X(SPV_NV_bindless_texture)
X(SPV_NV_compute_shader_derivatives)
X(SPV_NV_cooperative_matrix)
X(SPV_NV_fragment_shader_barycentric)
X(SPV_NV_geometry_shader_passthrough)
X(SPV_NV_mesh_shader)
X(SPV_NV_ray_tracing)
X(SPV_NV_ray_tracing_motion_blur)
X(SPV_NV_sample_mask_override_coverage)
X(SPV_NV_shader_image_footprint)
X(SPV_NV_shader_invocation_reorder)
X(SPV_NV_shader_sm_builtins)
X(SPV_NV_shader_subgroup_partitioned)
X(SPV_NV_shading_rate)
X(SPV_NV_stereo_view_rendering)
X(SPV_NV_viewport_array2)
X(SPV_QCOM_image_processing)
KD(ImageOperands)
KD(FPFastMathMode)
KD(SelectionControl)
KD(LoopControl)
KD(FunctionControl)
KD(MemorySemantics)
KD(MemoryAccess)
KD(KernelProfilingInfo)
KD(RayFlags)
KD(FragmentShadingRate)
KD(SourceLanguage)
KD(ExecutionModel)
KD(AddressingModel)
KD(MemoryModel)
KD(ExecutionMode)
KD(StorageClass)
KD(Dim)
KD(SamplerAddressingMode)
KD(SamplerFilterMode)
KD(ImageFormat)
KD(ImageChannelOrder)
KD(ImageChannelDataType)
KD(FPRoundingMode)
KD(FPDenormMode)
KD(QuantizationModes)
KD(FPOperationMode)
KD(OverflowModes)
KD(LinkageType)
KD(AccessQualifier)
KD(HostAccessQualifier)
KD(FunctionParameterAttribute)
KD(Decoration)
KD(BuiltIn)
KD(Scope)
KD(GroupOperation)
KD(KernelEnqueueFlags)
KD(Capability)
KD(RayQueryIntersection)
KD(RayQueryCommittedIntersectionType)
KD(RayQueryCandidateIntersectionType)
KD(PackedVectorFormat)
KD(CooperativeMatrixOperands)
KD(CooperativeMatrixLayout)
KD(CooperativeMatrixUse)
KD(InitializationModeQualifier)
KD(LoadCacheControl)
KD(StoreCacheControl)
KD(IdResultType)
KD(IdResult)
KD(IdMemorySemantics)
KD(IdScope)
KD(IdRef)
KD(LiteralInteger)
KD(LiteralString)
KD(LiteralFloat)
KD(LiteralContextDependentNumber)
KD(LiteralExtInstInteger)
KD(LiteralSpecConstantOpInteger)
KD(PairLiteralIntegerIdRef)
KD(PairIdRefLiteralInteger)
KD(PairIdRefIdRef)
