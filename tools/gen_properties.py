import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":state,"meaning":state}]
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
L="lib/source/"; H="lib/include/spvgentwo/"; C="common/source/"; CH="common/include/common/"
p("P01","Parsing a SPIR-V module and writing it back preserves the module",
 "For every well-formed SPIR-V binary that uses opcodes and operand kinds of the built-in grammar, Module::readAndInit succeeds and finalize/write emits a module with the same version, schema and memory model, the same instructions with the same operand words in the same section-relative order, and the same function bodies, up to one consistent renaming of ids; the generator word becomes the library's. Reading and writing without any id re-assignment keeps every id as it was, and a second read/write pass reproduces the first pass's output byte for byte. A module the validator accepts is still accepted afterwards.",
 ["inputs"],"all well-formed binaries over the grammar: any opcode, any mask combination with its parameters, any optional/variadic operand count, any literal width and string length",
 "Tests parse a dozen fixed files and only look at the exit code; operand parsing depends on mask bits, literal widths, optional operands and block layout, which combine far beyond a fixed corpus.",
 [L+"Module.cpp",L+"Instruction.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"Operand.cpp",L+"Grammar.cpp"],"Module::read dispatches words by section, Instruction::readOperands decodes by grammar, resolveIDs/assignIDs/write re-emit",obs="bytes given to IReader and bytes received by IWriter")
p("P02","No input binary can corrupt memory, crash or hang the library",
 "For every sequence of words given to Module::read/readAndInit, the call returns true or false without out-of-bounds access, use after free, null dereference, undefined behaviour, leak or unbounded run time. The same holds for the follow-up operations a tool applies to a module that was accepted (disassembly, reflection queries, finalize, write).",
 ["inputs"],"all finite word sequences: truncated, bit-flipped, spliced, wrong counts, dangling or duplicate ids, missing operands",
 "Tests only feed valid modules; a parser of untrusted binaries has to survive all the others.",
 [L+"Module.cpp",L+"Instruction.cpp",L+"Function.cpp",L+"BasicBlock.cpp",C+"ModulePrinter.cpp",C+"ReflectionHelper.cpp",C+"TypeHelper.cpp",C+"VulkanInterop.cpp"],"bounds/null checks in read, resolveIDs, reconstructTypeAndConstantInfo, reconstructNames and the printers")
p("P03","Disassembly shows every instruction and every operand faithfully",
 "For every module that was parsed or built, the text produced by ModulePrinter::printModule / the disassembler lists the module's instructions in serialization order, each with its opcode name, result id and all operands (ids, enumerant names, every set mask bit and the parameters it carries, literal numbers of the right value, literal strings) so that the binary operands can be recovered from the line. Nothing is dropped, duplicated or replaced by another value (strings are printed raw). The print options only remove or add the parts they name: with names, types or constant data switched on, exactly the ids they describe are replaced by them.",
 ["inputs","configurations"],"all modules over the grammar and all PrintOptions combinations",
 "The tests only check that the disassembler exits with 0; no test compares the printed text with the binary.",
 [C+"ModulePrinter.cpp",CH+"ModulePrinter.h","dis/source/dis.cpp",L+"Grammar.cpp"],"printInstruction walks grammar operands and instruction operands in lock step")
p("P04","The grammar tables agree with the SPIR-V specification",
 "For every opcode of the core grammar and the GLSL.std.450 and OpenCL.std instruction sets, Grammar::getInfo returns the specification's name, operand kinds and quantifiers, and the capability, extension and version queries return what the specification lists for that instruction. For every enumerant, getOperandInfo/getOperandName/parameter lookups return its specified name and parameter kinds, and spv.h enumerant values are the specified numbers. The specification is that of the SDK release the tables were made from; of several names for one value any one is right.",
 ["inputs"],"every opcode, operand kind and enumerant value of the three grammars (finite, enumerated completely)",
 "The tables hold thousands of generated entries; tests touch a few of them indirectly.",
 [L+"Grammar.cpp",H+"Grammar.h",H+"Spv.h",H+"Glsl.h",H+"OpenCl.h"],"generated hash maps filled by the Grammar constructor")
p("P05","A module built through the API without reported errors is valid SPIR-V",
 "For every sequence of builder calls (types, constants, variables, functions, entry points, blocks, control flow, instruction helpers) during which the library logged no error and returned no error instruction, and in which the caller terminated every block, finalizeAndWrite emits a binary the SPIR-V validator accepts. Result ids in it are unique, non-zero and below the bound, the bound is minimal, every used id is defined, and instructions appear in the section order the specification demands.",
 ["programs"],"all builder-call sequences within the supported API",
 "The tests validate eleven hand-written modules; layout and id assignment depend on call order, sharing of types/constants and section mix.",
 [L+"Module.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"EntryPoint.cpp",L+"Instruction.cpp",H+"Module.h"],"Module::finalize/assignIDs/write and the builder helpers")
p("P06","Generated code computes what the builder calls denote",
 "For every expression and control-flow program written with the builder (arithmetic, comparison and logic operators on signed, unsigned, float, boolean scalars and vectors, casts, composites, loads/stores, If, Loop, Phi, calls with arguments, GLSL.std.450 helpers), executing the emitted SPIR-V yields the value that evaluating the same program directly yields. Operand order, signedness-dependent opcode selection, branch targets and loop structure are therefore preserved.",
 ["programs","inputs"],"all well-typed programs over the builder operators, and all inputs of these programs",
 "spirv-val accepts a module with swapped operands or the wrong signedness; no test executes generated code.",
 [L+"BasicBlock.cpp",L+"Operators.cpp",L+"Instruction.cpp",H+"InstructionTemplate.inl",H+"BasicBlockTemplate.inl",H+"FunctionTemplate.inl",L+"GLSL450Instruction.cpp"],"operator helpers select opcodes by inferred base type; If/Loop create and wire blocks")
p("P07","Instruction helpers emit the specified result type and reject invalid operands",
 "For every op* helper that computes a value or accesses memory or images (conversions, arithmetic, bit, logic and comparison operations, the generic operators, vectors, matrices, composites, loads, stores, copies, access chains, image sampling/fetch/read/write/queries, derivatives, GLSL.std.450) and every combination of operand types, the helper either emits the opcode with the operands in specification order and with the result type the SPIR-V specification prescribes for them, or reports an error (logs it or yields the module's error instruction). It never silently accepts operand types, literal indices or image operands the specification forbids, and never rejects what the specification allows for that instruction, except that it may insist on equal or matching signedness, on a conversion target that exists, on image coordinates and formats usable without Kernel, and on distinct types for OpBitcast. Whether a result type the caller himself passes to an access chain fits is not covered.",
 ["programs","inputs"],"all value, memory and image helpers x operand type combinations (scalar kinds and widths, vectors, matrices, images, pointers, composites)",
 "Type inference is a switch over hundreds of opcode/type pairs; tests exercise a few dozen with one type each.",
 [L+"TypeInferenceAndValiation.cpp",L+"Instruction.cpp",H+"InstructionTemplate.inl",L+"GLSL450Instruction.cpp",L+"Type.cpp"],"inferResultType / validateOperands and the opXXX wrappers")
p("P08","Types are unique, distinguished and round-trip between C++ and SPIR-V",
 "Asking a module for the same type any number of times, in any way (template, Type object, composite of instructions, after parsing), gives the same single OpType instruction, and two types that differ in any property (width, sign, dimension, sampling, format, storage class, member order or nesting, array length, parameter types) give different instructions. The emitted OpType decodes to exactly the requested type, and getTypeInfo/Instruction::getType return that type. Parsed aggregates that occur several times stay as they are, and arrays whose length is a specialization constant differ from those of constant length.",
 ["inputs","histories"],"all type expressions up to bounded nesting and all orders of requests",
 "Uniqueness rests on structural hashing, whose collisions appear only for particular pairs of nested types.",
 [L+"Type.cpp",H+"Type.h",L+"Module.cpp",H+"ModuleTemplate.inl"],"Hasher<Type> keyed lookup maps in Module::addType/compositeType and reconstructTypeAndConstantInfo")
p("P09","Constants carry the exact requested value and are unique",
 "For every scalar of every supported C++ type, and every vector, matrix, array and struct composed of them, the emitted OpConstant/OpSpecConstant words decode bit for bit to the requested value and type (sign extension, 64-bit word order, NaN payloads and negative zero included). Asking again for the same value gives the same instruction (a specialization constant is a new one each time), different values or types or spec-ness give different ones, and Constant info and data are recovered unchanged after parsing the module. An operation on constants made an OpSpecConstantOp (toSpecOp, opSpecConstantOp) is emitted with the requested opcode, type and operands, in a module SPIR-V accepts.",
 ["inputs","histories"],"all constant values of all supported types, all orders of requests",
 "Tests check a few integers and floats; widths, sign and composite nesting interact with hashing and literal packing.",
 [L+"Constant.cpp",H+"Constant.h",L+"Module.cpp",L+"Operand.cpp",H+"Operand.h"],"Constant::make packing, Hasher<Constant> lookup, Module::addConstant emission")
p("P10","Names, decorations and reflection queries answer what the module says",
 "For every module, built or parsed, getName/getNames/getInstructionByName/getInstructionById, getDecorations and the ReflectionHelper queries (variables by storage class or decoration, decoration literals, local size) return exactly, or where they return one of several, one of, what the OpName, OpMemberName, OpDecorate, OpMemberDecorate and OpExecutionMode instructions of the module state (decoration groups aside). Literal strings of any length and content survive encoding and decoding unchanged.",
 ["inputs","histories"],"all sets of names, member names and decorations over all targets, including repeated, empty and prefix-sharing names",
 "Lookups use hash maps and word-wise string compares whose errors need particular name lengths, prefixes or several entries per target.",
 [L+"Module.cpp",L+"Instruction.cpp",C+"ReflectionHelper.cpp",CH+"ReflectionHelperTemplate.inl",L+"Operand.cpp"],"m_NameLookup multi-map, literal string packing, linear scans over decorations")
p("P11","Removing and replacing instructions leaves a consistent module",
 "For every module and every sequence of replaceUses, gatherUses, Module/Function/BasicBlock/Instruction removal and insertion operations, all and only the uses of the affected instruction (for a removed block or function, of every instruction in it) are reported, replaced or cleared, no operand, lookup map or list refers to a removed object, and every other instruction is unchanged. Types, constants and names requested after the edit are those of the edited module (after replacing operands inside type or constant declarations: once reconstructTypeAndConstantInfo was called), and it can still be finalized and written.",
 ["histories"],"all sequences of edit operations on all modules",
 "Dangling operands and stale lookup entries show up only for particular edit sequences, often only under a memory checker.",
 [L+"Module.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"Instruction.cpp",H+"Entry.h",H+"List.h"],"gatherUses/replaceUses/remove/removeFromLookupMaps")
p("P12","Moving, assigning and resetting a module loses and corrupts nothing",
 "A module that was move-constructed, move-assigned or swapped through moves any number of times, at any point of its construction, afterwards behaves like the original: it writes the same bytes, all its instructions, blocks and functions report it as their module, and construction can go on with the same results. A reset module is empty and usable; a moved-from one can be destroyed or assigned again, and shares nothing with the other.",
 ["histories"],"all interleavings of construction steps with moves, assignments and resets",
 "Tests return modules by value once; stale parent pointers only matter when something is used after the move.",
 [L+"Module.cpp",L+"Function.cpp",L+"BasicBlock.cpp",L+"EntryPoint.cpp",L+"Instruction.cpp"],"Module(Module&&), operator=, updateParentPointers, reset")
p("P13","Finalizing adds exactly the required capabilities, extensions and version",
 "After finalize(grammar), for every module, each instruction in use has one of its enabling capabilities declared (directly or implied), as have integer and float widths and the memory model; the extensions the grammar lists for it are declared, and the module version is at least the minimum it needs. Nothing is declared that no instruction needs, nothing declared by the user is lost or duplicated, and addCapability with dependents, removeCapability, checkCapability, addExtension and extension-import lookups behave as sets.",
 ["programs","histories"],"all modules over the grammar's opcodes, all sequences of capability/extension calls",
 "Capability closure depends on which of hundreds of opcodes and capabilities occur together; tests use a handful.",
 [L+"Module.cpp",L+"Grammar.cpp",H+"Module.h",H+"SpvDefines.h"],"addRequiredCapabilities/addRequiredExtensions/getRequiredVersion iterate instructions with the grammar")
p("P14","Entry-point interfaces, call graphs and control-flow graphs match the code",
 "For every module, finalizing an entry point lists in its interface exactly the global variables that are reachable from it through calls and that its SPIR-V version wants listed (Input/Output before 1.4, all from 1.4), each once. FunctionCallGraph contains exactly the functions and call instructions reachable from its root, ControlFlowGraph exactly the blocks and branch edges of the function, and both terminate on recursive and cyclic code.",
 ["programs"],"all call structures (diamonds, recursion, unused functions) and all block structures, and all placements of variable uses",
 "Reachability depends on graph shape and on which operand uses a variable; tests have one call and no shared callee.",
 [L+"Function.cpp",L+"EntryPoint.cpp",C+"FunctionCallGraph.cpp",CH+"ControlFlowGraph.h",CH+"Graph.h"],"Function::collectReferencedVariables, EntryPoint::finalizeGlobalInterface, graph constructors")
p("P15","Linking resolves imports to the library's definitions",
 "For every consumer and library whose linkage symbols and types match, LinkerHelper::import makes each imported function or variable carry the library's definition: body, callees, referenced globals, types, constants, names and decorations are transferred completely and equal the library's up to id renaming, calls in the consumer reach them, and nothing of the consumer is lost. The linked module is valid SPIR-V, the library module is unmodified, and a mismatching symbol is reported as failure instead of producing a wrong module. A symbol no library provides stays an import; symbols the library itself imports become imports of the consumer or its definitions of the same name.",
 ["programs"],"all library/consumer pairs: shared and nested callees, loops and phis, globals, matching and mismatching signatures, several libraries",
 "The one test links two fixed libraries and checks only validity; transfer order, forward references and shared symbols vary per program.",
 [C+"LinkerHelper.cpp",CH+"LinkerHelper.h","link/source/link.cpp"],"import(): lookup of exports, transferFunction/transferInstruction with caches, decoration clean-up")
p("P16","Linker options do exactly what they document",
 "Each LinkerOptions flag (import names, decorations, missing types and constants, global variables, referenced functions, debug lines, removal of import/export decorations and linkage capability, id assignment) causes its own documented effect and no other flag's effect, in every combination with the other flags; an import that needs a part whose flag is off fails. patch() and addLinkageDecoration add exactly the requested symbol.",
 ["configurations","programs"],"all flag combinations on all library/consumer pairs",
 "The test links with all flags set; an effect tied to the wrong flag is invisible there.",
 [C+"LinkerHelper.cpp",CH+"LinkerHelper.h","link/source/link.cpp"],"LinkerOptionBits tests in import()")
p("P17","Every allocation is returned once, to its allocator, with its size",
 "Over every history of library use (building, parsing, linking, printing, editing, moving, container operations), each block obtained from the user's IAllocator is released exactly once through the same allocator with the size it was allocated with, nothing is released that was not allocated, and nothing is outstanding once all objects are destroyed. No memory is obtained from elsewhere.",
 ["histories"],"all operation histories; also mixed allocators between containers",
 "Tests use malloc, which ignores sizes, and never count blocks.",
 [H+"Allocator.h",H+"Vector.h",H+"List.h",H+"HashMap.h",H+"String.h",H+"Entry.h",CH+"Callable.h",CH+"Graph.h",L+"Module.cpp"],"IAllocator::construct/destruct and container destructors/moves")
p("P18","List and Entry behave as a doubly linked sequence",
 "For every history of List and Entry operations (emplace front/back, insert before/after, erase, remove, move, splice, copy/move assignment, clear, search, iteration in both directions), size, order, contents, links and returned iterators agree with a sequence model, elements are constructed and destroyed exactly once, and no freed node is touched. Operations on one list never change another. (A moved-from list is only destroyed or assigned again.)",
 ["histories"],"all operation sequences over several lists, including self and empty operands and failing allocations",
 "Link errors need particular shapes (longer left side on assignment, insertion before the first node); tests do not test the containers.",
 [H+"List.h",H+"Entry.h",H+"EntryIterator.h",CH+"HeapList.h"],"Entry prev/next rewiring, List begin/last/count maintenance")
p("P19","Vector and String behave as contiguous sequences",
 "For every history of Vector and String operations (emplace_back, insert, assign, resize, reserve, clear, copy and move, append, comparison, search, c_str, number formatting), size, contents, termination and results agree with a reference model, elements are constructed and destroyed exactly once, and no access leaves the allocation. A failed allocation leaves the container unchanged or reports the failure.",
 ["histories","fault_sequences"],"all operation sequences with all positions/lengths, including appending and assigning a string to itself and failing allocations",
 "Growth within capacity, insertion at every position and shrink paths need particular size/capacity relations.",
 [H+"Vector.h",H+"String.h",L+"String.cpp",CH+"HeapVector.h",CH+"HeapString.h"],"resize/insert/reserve size and capacity bookkeeping")
p("P20","HashMap finds exactly the entries stored under a key",
 "For every history of HashMap operations (emplace, emplaceUnique, insert, lookup, ranges, erase, move, clear, iteration) the map agrees with an associative model: a lookup finds an entry iff one with that key is stored, unique insertion keeps one value, ranges and counts cover exactly the entries of the key, iteration visits every entry once, and count() is right. Keys that share a bucket never get mixed up.",
 ["histories","inputs"],"all operation sequences over keys of all used key types and all bucket counts",
 "Bucket collisions depend on key values and bucket count; tests do not exercise the map directly.",
 [H+"HashMap.h",H+"HashMapIterator.h",H+"FNV1aHasher.h",CH+"HeapHashMap.h"],"bucketed lists with stored hashes; Range iterators")
p("P21","Graphs, expressions and callables evaluate each thing once and in order",
 "For every directed acyclic graph, ExprGraph evaluates each node reachable from the exit node exactly once and after all its inputs, passing the inputs in connection order, and resetEvaluationState makes it evaluable again. Graph connect/disconnect/erase/move keep input and output edge lists mutually consistent, and a Callable invoked after any copy, move or re-assignment calls exactly the functor it was given and destroys it once.",
 ["histories","programs"],"all graph shapes and edit histories; all callable assignment histories",
 "The test evaluates one four-node graph.",
 [CH+"Graph.h",CH+"Node.h",CH+"ExprGraph.h",CH+"Expression.h",CH+"Callable.h",CH+"HeapCallable.h"],"recursive evaluation with an evaluated flag; edge lists on both nodes; type-erased functor")
p("P22","Readers, writers and tools transport modules without loss and report failure",
 "BinaryFileReader returns every word of a file once and in order, from the requested offset, and end-of-file after that; BinaryFileWriter and BinaryVectorWriter store exactly the words written; a module written to a file, memory or vector has the same bytes. A write or read that fails (writer refuses a word, file missing, truncated inside an instruction or function, or not SPIR-V) makes Module::write/read and the command-line tools report failure.",
 ["inputs","fault_sequences"],"all file sizes and contents, and a failure at every word position",
 "Tests never fail a write, never read an odd-sized file and never look at tool exit codes other than 0.",
 [C+"BinaryFileReader.cpp",C+"BinaryFileWriter.cpp",CH+"BinaryVectorWriter.h",L+"Module.cpp",H+"Module.h","dis/source/dis.cpp","link/source/link.cpp","refl/source/refl.cpp"],"IReader::get/IWriter::put results propagated through write/read")
p("P23","Vulkan interop and type helpers classify resources as the Vulkan spec does",
 "For every OpVariable of a resource type Vulkan permits, vk::getDescriptorTypeFromVariable returns the descriptor type that the variable's pointee type, storage class, image properties and set/binding sharing imply, and for every execution model getShaderStageFromExecutionModel returns its Vulkan stage. Type queries used for it (sizes, component counts, base types, image properties) agree with the OpType operands.",
 ["inputs"],"all resource types x storage classes x image properties x set/binding assignments, all execution models",
 "No test calls these functions.",
 [C+"VulkanInterop.cpp",CH+"VulkanInterop.h",L+"Type.cpp",C+"TypeHelper.cpp"],"switches over type/storage class plus decoration lookup")
p("P24","Output depends only on the sequence of API calls",
 "Running the same sequence of builder, parser, linker or printer calls twice, in any process, with any allocator addresses and any prior memory contents, produces identical bytes and text. No result depends on uninitialised memory, pointer values or hash-table layout history.",
 ["programs","configurations"],"all programs x allocator address/poison patterns",
 "A single run per test cannot see a dependency on memory contents or addresses.",
 [L+"Module.cpp",H+"HashMap.h",H+"Type.h",L+"Type.cpp",L+"Constant.cpp",L+"Function.cpp"],"iteration over hash maps keyed by values or pointers; default-initialised members")
p("P25","ExternalMemoryAllocator hands out aligned, disjoint blocks inside its buffer",
 "For every buffer and request sequence, each non-null block ExternalMemoryAllocator returns lies inside the buffer, is aligned as requested and does not overlap any other block still in use; a request that does not fit returns nullptr and leaves the allocator usable. Vectors, strings and lists that run out of this memory never write outside the buffer and report it.",
 ["inputs","fault_sequences"],"all buffer sizes/alignments and allocation sequences, including exhaustion at every point",
 "The test performs a few allocations that fit.",
 [C+"ExternalMemoryAllocator.cpp",CH+"ExternalMemoryAllocator.h",H+"Allocator.h"],"bump pointer with alignPowerOf2")
p("P26","Describing, lookup, flag, log and algorithm helpers answer exactly as asked",
 "TypeHelper::getTypeName describes every type by its structure: scalars, vectors and matrices by name and size, pointers, arrays, functions and structs (members in order, indented by nesting) by their parts, with the OpName of every named struct, variable or function when an instruction is given. GrammarHelper::getFirstOperandOfKind and getOperandByName return, for every instruction, exactly the operand at the position the grammar gives that kind or that exact name, and nothing if the instruction does not have it. Flag behaves as a bit set, a logger passes on exactly the messages whose level is in its filter with their arguments, to the current callback, and algo::transform/any/all and the Heap containers visit each element once, in order and no further than needed.",
 ["inputs"],"all types, all instructions and operand kinds/names, all flag values and operations, all filter x level combinations, all container contents",
 "Tests log one struct and one function without looking at the text, and never look up an operand that is missing, optional or follows a string.",
 [C+"TypeHelper.cpp",C+"GrammarHelper.cpp",H+"Flag.h",H+"Logger.h",C+"ConsoleLogger.cpp",CH+"Algorithms.h",CH+"HeapList.h",CH+"HeapVector.h",L+"Type.cpp"],"recursive text composition; parallel walk over operands and grammar operand list; mask operations",obs="returned strings, iterators, masks and callback invocations")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
