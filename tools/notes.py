SAMP = " Seeded sampling, not exhaustive. Trusts the simulated file system, descriptors and heap to behave as POSIX and glibc specify."
NOTE = {
"C01": ("seeded delivery schedules (read sizes, stalls, channel, buffers), line-conservation model and pairwise comparison", "Thousands of texts, each delivered in 3 to 5 ways to the real code; text lines compared with an independent line model and between deliveries." + SAMP),
"C02": ("read errors injected at byte positions of the input", "Per run, errors at the start, end, line and buffer borders and random byte positions of the input." + SAMP),
"C03": ("write, flush and close faults injected at byte positions of the output", "Per run, write faults at the start, end and random positions of the output of every mode; exit 0 is only accepted with the complete output." + SAMP),
"C04": ("seeded configuration landscapes with unreadable and failing locations, search-order model", "An independent model of the documented search order predicts the one file to be used." + SAMP),
"C05": ("read, open and stat faults and chunkings on configuration files", "Every faulted run must equal the intact run or fail with a diagnostic and no output." + SAMP),
"C06": ("seeded parent graphs with missing, failing and cyclic references, reachability model", "An independent model of nearest-definition-wins predicts list, query and drawing." + SAMP),
"C07": ("allocation failures injected into boxes and its libraries", "Sweeps over the allocations of seeded runs; a run ends like the reference or fails." + SAMP),
"C08": ("paired runs under different memory, allocator, stack, clock, identity and environment", "Differential: any dependence on an undocumented source changes the result; red zones and inaccessible pages around heap blocks catch accesses outside blocks." + SAMP),
"C09": ("file-system invariant over runs with random faults and kills", "Every modifying call is recorded and the file system compared before and after." + SAMP),
"C10": ("silent and slow standard input, step bounds", "A read of silent input blocks for ever in the simulator, which is the violation; the step bound is linear in input and output size." + SAMP),
"C11": ("kills at system calls, kills of the rerun, then a complete rerun", "Prefix and recovery invariants over crash points of seeded runs." + SAMP),
"C12": ("terminal database variants and failures, five runs compared", "Results with and without colour options compared for known, unknown, unset and broken terminals." + SAMP),
"C13": ("atomic replacement or removal of files at system calls of the run", "The result must equal the all-old or the all-new result or be a failure without output." + SAMP),
"C14": ("invalid command lines and failing opens, output file invariant", "Every documented option-value error and unopenable file, in seeded combinations with valid options." + SAMP),
"C15": ("descriptor accounting and tight descriptor limits", "High-water mark of open descriptors against a constant bound, and equality of results under the limit." + SAMP),
"C16": ("present, broken, unreadable and failing configurations against none", "Differential between configuration states for -c runs." + SAMP),
"C17": ("histories of draw, mend and remove with faults, kills and retries", "The document is compared with the original after each step of a history." + SAMP),
"C18": ("standard error failing at byte positions", "Output, output file and exit status compared with a run with working standard error; the output checked for diagnostics." + SAMP),
"C19": ("storage damage injected into configuration, parent and text bytes, two memory layouts", "Torn, lost, zeroed, stale, doubled and flipped bytes at seeded positions of the files of seeded runs; ending, memory accesses, diagnostics, equality under two memory layouts, and designs before the damage are checked." + SAMP),
"C20": ("failing converter openings, locales and deliveries over texts in 14 encodings, differential against UTF-8", "Results under -n compared with the converted UTF-8 result; per run a sweep of failing iconv_open calls for converters that are loaded from disk." + SAMP),
}
PURE = "pure function of the input text, the options and the configuration text: no scheduling, time, fault or history can change it, so simulation adds nothing over input generation. "
NA = {
"C30": PURE + "Layout arithmetic in generate.c; only the parts needed to find text lines again are modelled (C01).",
"C31": PURE + "Design recognition in detect.c and remove.c is a heuristic over the text; round trips of intact boxes through faulty histories are covered by C17.",
"C32": PURE + "Column arithmetic over Unicode data.",
"C33": PURE + "Tab policy arithmetic.",
"C34": PURE + "Regular expression rules applied to single lines.",
"C35": PURE + "Set arithmetic over tags.",
"C36": PURE + "Grammar recovery over the configuration text.",
"C37": PURE + "Choice of line terminator.",
}
