import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "runtime monitor: grammar-driven random modules parsed and re-written under ASan/UBSan, output compared with the input modulo id renaming",
 "P02": "sanitizer-monitored fuzzing: structure-aware mutation of binaries through parse, print, reflect, finalize, write under ASan/UBSan with a watchdog",
 "P03": "runtime monitor: printed text parsed back and compared with the independently decoded binary, all print options",
 "P04": "runtime monitor: complete enumeration of the grammar queries against the Khronos grammar files",
 "P05": "runtime monitor: random builder programs, emitted binary checked by SPIRV-Tools and by an independent layout/id checker",
 "P06": "differential execution: random programs built through the API, emitted SPIR-V run by an interpreter and compared with direct evaluation",
 "P07": "runtime monitor: every helper over operand type tuples, emitted instruction compared with the specification's typing rules and the validator",
 "P08": "runtime monitor: random type requests compared with a structural model and with the decoded binary",
 "P09": "runtime monitor: random constants compared with a value model and with the decoded binary, before and after parsing",
 "P10": "runtime monitor: queries answered by the module compared with the independently decoded instructions",
 "P11": "runtime monitor: edit histories replayed on an operand-level model, ASan for dangling references",
 "P12": "runtime monitor: the same construction with and without moves must emit the same bytes, under ASan",
 "P13": "runtime monitor: capabilities/extensions/version after finalize compared with the Khronos grammar's closure",
 "P14": "runtime monitor: interfaces and graphs compared with reachability recomputed from the emitted binary",
 "P15": "runtime monitor: linked binaries compared with the library's decoded function bodies up to id renaming, plus validator",
 "P16": "runtime monitor: all linker flag combinations compared with each flag's documented effect",
 "P17": "runtime monitor: tracking allocator (address, size, owner) under mixed workloads, plus heap interposition",
 "P18": "runtime monitor: operation histories against a sequence model with lifetime tracking, ASan/UBSan",
 "P19": "runtime monitor: operation histories against std models with lifetime tracking and failing allocations, ASan/UBSan",
 "P20": "runtime monitor: operation histories against an associative model with lifetime tracking, ASan/UBSan",
 "P21": "runtime monitor: random graphs and callable histories against an evaluation trace specification",
 "P22": "runtime monitor with fault injection: refusing writers/readers at every word, real files, tool exit codes",
 "P23": "runtime monitor: complete enumeration of resource variables against the Vulkan rules",
 "P24": "differential execution: same calls under different address and poison patterns, MemorySanitizer",
 "P25": "runtime monitor: request histories on guarded buffers against an interval model",
 "P26": "runtime monitor: random types, instructions, masks and messages against structural models",
}
NOTE = {}
claimed = sorted({os.path.basename(f)[:3].upper() for f in glob.glob(V + '/src/p[0-9][0-9]*.cpp')})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "SPVGENTWO_VERIF_HOOKS", "enable": "no hooks are needed: checks compile /repo's unmodified sources with sanitizers", "source_commits": []},
 "checks": [], "not_applicable": []}
for k in sorted(T):
    if k in claimed:
        m["checks"].append({"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough", "technique": T[k], "level": "exploration",
          "level_note": NOTE.get(k, "Held on every execution the monitor observed (counts in the evidence file); says nothing about inputs not generated. Trusts the sanitizers, SPIRV-Tools and the models in src/.")})
    else: m["not_applicable"].append({"property": k, "reason": "check not built yet"})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(claimed)
