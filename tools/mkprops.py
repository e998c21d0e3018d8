#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to read and edit)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe, hook="none: the simulator redirects boxes' libc calls at link time", state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

add("C01", "Every input line appears exactly once, however the bytes are delivered",
    "For any input text, boxes puts every line into the box exactly once, complete and in order, and the result is byte for byte the same whether the text comes from a named file, from standard input or from '-', in whatever chunk sizes and delays the bytes arrive, and whatever the buffer sizes. Neither a missing final line break, nor the number of lines, nor the length of a line (within the documented line limit) makes a line disappear, split, merge or repeat.",
    ["inputs", "schedules"], "all input texts x all ways the operating system may hand the same bytes over (read sizes from one byte up, stalls, EINTR-free short reads, stdin / '-' / file, terminal or pipe, stdio buffer sizes) x draw, remove and mend",
    "The test suite feeds a few fixed texts through one pipe write each; chunking, buffer size and delivery channel are never varied, and no test has more than a few dozen lines.",
    ["src/input.c", "src/cmdline.c", "src/unicode.c", "src/generate.c"],
    [("read_all_input loop", "src/input.c:read_all_input"), ("choice of input stream", "src/cmdline.c:input_output_files"), ("line output", "src/generate.c:output_box")],
    ["output stream or output file, compared with a line-conservation model and with other deliveries of the same bytes"],
    state=[("line table", "grows in steps of 100 lines", "src/input.c:read_all_input")])

add("C02", "A read error on the input is reported and nothing is output",
    "If reading the input text fails at any point, on standard input or on a named input file, boxes exits with a failure status, writes a diagnostic to standard error and outputs no box at all. It never presents a box around only the part of the text that could be read.",
    ["fault_sequences", "inputs"], "every kind of read error (EIO, EISDIR, EAGAIN, ESTALE, closed descriptor, ...), transient or lasting, at every byte position including the very end of the text, for draw, remove and mend, with output to stdout or to a file",
    "No test makes a read fail; the runner only supplies readable input through a pipe.",
    ["src/input.c", "src/boxes.c", "src/cmdline.c"],
    [("error check after the read loop", "src/input.c:read_all_input"), ("exit on failed input", "src/boxes.c:handle_input")],
    ["exit status, stderr, stdout, output file"])

add("C03", "Exit status 0 means the complete output was accepted",
    "boxes exits with status 0 only if every byte of its output was accepted by the output stream or output file, including the data flushed at the end and the closing of a named output file; otherwise it exits with a failure status and a diagnostic (or is ended by SIGPIPE). This holds for drawing, removing, mending, listing, tag queries, help and version output, and when the output stays broken, what was accepted before is a prefix of the complete output.",
    ["fault_sequences", "inputs"], "every write fault (ENOSPC, EIO, EPIPE with and without SIGPIPE, EDQUOT, EFBIG, EINTR, EBADF, short writes, failing close) at every byte position of the output, transient or lasting, for all output modes and stdio buffer sizes",
    "No test makes a write fail: output always goes to a regular file that accepts everything.",
    ["src/boxes.c", "src/generate.c", "src/remove.c", "src/list.c", "src/query.c", "src/cmdline.c", "src/parsing.c"],
    [("drawing output", "src/generate.c:output_box"), ("removal output", "src/remove.c:output_input"), ("list output", "src/list.c:list_designs"), ("query output", "src/query.c:query_by_tag"), ("help output", "src/cmdline.c:usage_long"), ("all exits", "src/boxes.c:main")],
    ["exit status or signal, stderr, bytes accepted by the sink"])

add("C04", "The configuration file is found in the documented places and order",
    "boxes uses the location given with -f (file or directory), else the one in the BOXES environment variable, else the first readable configuration file of the documented user and global locations in the documented order, trying the documented file names in order inside each directory; directories and unreadable files at these places are passed over. A location given with -f or BOXES that holds no readable configuration file is an error: boxes then fails with a diagnostic and never falls back to another location.",
    ["configurations", "fault_sequences"], "every combination of existing, missing, unreadable, non-statable and directory-instead-of-file candidates in all locations, every combination of -f, BOXES, HOME, XDG_CONFIG_HOME set or unset, and the same for references to the global configuration",
    "The tests run in one fixed environment, always with a configuration file in reach; the global and XDG locations are outside the test directory and are never populated.",
    ["src/discovery.c", "src/boxes.c"],
    [("search order", "src/discovery.c:discover_config_file"), ("names in a directory", "src/discovery.c:locate_config_in_dir"), ("mandatory locations", "src/discovery.c:locate_config_common"), ("readability probe", "src/discovery.c:can_read_file")],
    ["which configuration's design is drawn or listed; exit status; stderr"])

add("C05", "A configuration file that cannot be read completely is never half used",
    "If reading, opening or examining the chosen configuration file fails at any point after it was found, or reading a parent configuration file fails, boxes either produces exactly the result it produces with an intact read or fails with a failure status, a diagnostic and no output. The result never depends on the chunk sizes, delays or buffer sizes with which the configuration file is delivered.",
    ["fault_sequences", "schedules"], "every read, open and stat fault on every configuration file at every byte position, transient or lasting, and every chunking of the configuration, for drawing by name or default, autodetecting removal, listing and querying",
    "Configuration files in the tests are always completely readable local files delivered in one piece.",
    ["src/parsing.c", "src/lexer.l", "src/parser.y", "src/discovery.c"],
    [("reading the configuration", "src/lexer.l (scanner input)"), ("scanner buffer sized from file size", "src/lexer.l:inflate_inbuf"), ("open failure", "src/parsing.c:open_yy_config_file")],
    ["stdout compared with the fault-free run, exit status, stderr"])

add("C06", "Parent configurations resolve correctly for every reference graph",
    "For every set of configuration files that refer to each other as parents, including chains, diamonds, repeated references, self references and cycles, boxes terminates and knows exactly the designs of all reachable readable files. When several files define a design of the same name (ignoring case), the definition fewest parent steps away from the main configuration file is the one used. A parent that is missing or cannot be opened is reported on standard error and does not prevent the designs of the remaining files from being used.",
    ["configurations", "fault_sequences"], "all parent graphs over a bounded number of files with overlapping design names, references to missing, unopenable or vanishing files, and the global configuration token, for listing, querying and drawing by name",
    "Eight tests have fixed graphs of at most four files; none makes a parent fail to open in the middle of loading.",
    ["src/parsing.c", "src/parsecode.c", "src/parser.y"],
    [("worklist of parents", "src/parsing.c:parse_config_files"), ("duplicate suppression", "src/parsing.c:record_parent_config_files"), ("precedence", "src/parsing.c:copy_designs"), ("reference checks", "src/parsecode.c:action_parent_config")],
    ["set of names printed by a query, the drawn design, exit status, stderr"])

add("C07", "Running out of memory never yields a wrong result with exit status 0",
    "If any single memory allocation fails, or all allocations fail from some point on, boxes either still delivers exactly the result it delivers with sufficient memory or ends with a failure (non-zero status or signal). It never exits with status 0 after incomplete or different output, and it never hangs.",
    ["fault_sequences", "inputs"], "every allocation of a run as failure point, single or lasting, for drawing, removing, mending, listing, querying, padding, substitution, tabs, Unicode and colour",
    "No test injects allocation failures.",
    ["src/boxes.c", "src/generate.c", "src/remove.c", "src/bxstring.c", "src/unicode.c", "src/parsecode.c", "src/shape.c", "src/tools.c"],
    [("result of box output", "src/generate.c:output_box"), ("string composition", "src/bxstring.c:bxs_concat"), ("conversion", "src/unicode.c:u32_strconv_to_output")],
    ["stdout or output file compared with the fault-free run, exit status"])

add("C08", "The result depends only on arguments, files, input and documented environment",
    "Two runs with the same arguments, file contents, input and documented environment variables produce the same output and exit status, whatever the previous content of memory, the addresses handed out by the allocator, the reuse of released memory, the stack content, the wall clock, the process id, unrelated environment variables, the working directory (for absolute paths) or the order of directory entries. No run reads or writes outside the memory it allocated, or touches memory it has already released.",
    ["schedules", "configurations", "inputs"], "pairs of runs of the same task under different memory fill patterns, allocator placement and reuse policies, stack contents, clocks, identities and irrelevant environment, over all modes and options",
    "A test run sees one memory layout; reading uninitialised or released memory usually happens to give the expected bytes there.",
    ["src/generate.c", "src/remove.c", "src/shape.c", "src/bxstring.c", "src/parsecode.c", "src/tools.c", "src/unicode.c"],
    [("box assembly", "src/generate.c"), ("box removal", "src/remove.c"), ("design table", "src/parsecode.c"), ("string buffers", "src/bxstring.c, src/unicode.c")],
    ["outputs of paired runs; guard bytes and inaccessible pages around every heap block"])

add("C09", "Only the named output file is ever created, changed or opened for writing",
    "Whatever the mode, input, configuration and faults, boxes creates, truncates, writes or removes no file except the output file named on the command line, and starts no other program. Input and configuration files keep their content, and without an output file argument nothing in the file system changes.",
    ["fault_sequences", "inputs", "configurations"], "all modes and option combinations crossed with read, write, open, allocation faults and kills at arbitrary points",
    "The tests look at stdout and the named file only; nothing checks the rest of the file system, least of all on error paths.",
    ["src/cmdline.c", "src/discovery.c", "src/parsing.c", "src/tools.c"],
    [("opening of files", "src/cmdline.c:input_output_files"), ("config opens", "src/tools.c:bx_fopens")],
    ["log of every simulated file-system operation, file system before and after"])

add("C10", "boxes never waits for input it does not need and ends promptly after EOF",
    "Help, version, listing and tag queries, every run with a named input file, and every run that fails because of its arguments, its configuration or an unopenable file finish without reading standard input at all. A filter run that has seen the end of its input finishes within a number of system calls bounded by the size of its input and output, however slowly the input arrived.",
    ["schedules", "inputs"], "all modes and error cases with a standard input that never delivers anything, and all filter modes under stalling, tiny-chunk input",
    "The test runner always connects an input that ends at once, so a superfluous read cannot be noticed.",
    ["src/boxes.c", "src/cmdline.c", "src/input.c"],
    [("order of steps in main", "src/boxes.c:main"), ("stream selection", "src/cmdline.c:input_output_files")],
    ["reads on the simulated standard input, number of simulated calls after end of input"])

add("C11", "After a kill at any point the output file is a prefix, and a rerun repairs it",
    "If boxes is killed at any moment while writing to a named output file, that file holds either its old content or a prefix of the complete result, and every other file is unchanged. Running the same command again then yields exactly the complete result and nothing else, also when the file existed before and was longer.",
    ["crash_points", "histories"], "every system call of a run as crash point, one or more crashes in a row, existing and missing output files, draw, remove, mend, list and query",
    "No test kills the program or runs it twice on the same output file.",
    ["src/cmdline.c", "src/generate.c", "src/remove.c"],
    [("opening the output", "src/cmdline.c:input_output_files"), ("writing", "src/generate.c:output_box")],
    ["file system after the kill and after the rerun"])

add("C12", "Colour handling: --color, --no-color, and any terminal or none",
    "With --no-color the output contains no escape sequence; with --color a drawn box keeps those of the text (between the first and the last visible character of each line) and differs from the monochrome one in nothing but escape sequences, independent of the terminal; without either option it is exactly one of these two, depending on whether the terminal type named in the environment is known to have at least eight colours. An unset, empty or unknown terminal type, or an unreadable terminal database, never prevents boxes from doing its work: it then simply works without colour.",
    ["configurations", "fault_sequences"], "all terminal types (colour, monochrome, unknown, unset, empty), a broken terminal database, designs and texts with escape sequences, all modes",
    "The tests run with one fixed TERM; unknown terminals and an unreadable terminal database never occur.",
    ["src/boxes.c", "src/bxstring.c"],
    [("terminal capability", "src/boxes.c:terminal_has_colors"), ("removal of escapes on output", "src/bxstring.c:bxs_to_output")],
    ["escape characters in the output, exit status, stderr"])

add("C13", "A file replaced during the run is seen either entirely or not at all",
    "If the configuration file or the input file is atomically replaced by another version (or removed) at any moment of the run, boxes behaves exactly as with the old version, exactly as with the new version, or fails with a failure status and no box output. It never uses a mixture of both versions.",
    ["schedules", "histories"], "every system call of a run as the moment of replacement or removal of the configuration, of the input file or of a parent configuration, smaller and larger new versions, all modes",
    "Files in the tests never change during a run.",
    ["src/discovery.c", "src/parsing.c", "src/lexer.l", "src/input.c"],
    [("probe, open and size query of the configuration", "src/discovery.c:can_read_file, src/parsing.c:open_yy_config_file, src/lexer.l:inflate_inbuf"), ("single open of the input", "src/cmdline.c:input_output_files")],
    ["stdout compared with the runs on the old and on the new version"])

add("C14", "A rejected command line or unreadable input file leaves the output file alone",
    "If the command line is invalid (unknown option, bad option value, too many files) or the input file cannot be opened, boxes exits with a failure status and a diagnostic, writes nothing to standard output (except requested help) and neither creates nor changes the output file. If the output file cannot be opened, boxes fails likewise without producing any output elsewhere.",
    ["inputs", "fault_sequences"], "all invalid option values and combinations, unopenable input files (missing, no permission, descriptor limit, I/O error), unopenable output files, existing and missing output files",
    "The tests check messages of some invalid command lines, but never name an output file together with an error.",
    ["src/cmdline.c", "src/boxes.c"],
    [("options before files", "src/cmdline.c:process_commandline"), ("input before output", "src/cmdline.c:input_output_files")],
    ["exit status, stderr, stdout, file system"])

add("C15", "The number of simultaneously open files is small and constant",
    "The number of files and directories boxes holds open at the same time does not grow with the number of configuration files, parent references, search locations or the size of the input. boxes therefore completes its task under a descriptor limit that leaves room for the input file, the output file and two more.",
    ["configurations", "fault_sequences"], "all numbers of parent configurations and searched locations, with parse errors, missing parents and unreadable candidates in between, under tight descriptor limits",
    "With a limit of 1024 descriptors a leak of a few of them is invisible to the tests.",
    ["src/discovery.c", "src/parsing.c", "src/parsecode.c", "src/cmdline.c"],
    [("config handle closed after parsing", "src/parsing.c:parse_config_file"), ("probes closed", "src/discovery.c:can_read_file, can_read_dir"), ("parent probe closed", "src/parsecode.c:action_parent_config")],
    ["high-water mark of simulated descriptors; success under a limit"])

add("C16", "A design given on the command line does not depend on configuration files",
    "With -c, boxes draws and removes the given design without any configuration file: the result is the same whether configuration files exist, are missing, unreadable, syntactically broken or fail while being read.",
    ["configurations", "fault_sequences"], "all states and faults of all configuration locations, any HOME, XDG_CONFIG_HOME and BOXES, for drawing, removing and mending with -c",
    "The tests always have a valid configuration file in reach, so a dependency on it goes unnoticed.",
    ["src/boxes.c"],
    [("choice between -c and configuration", "src/boxes.c:handle_config_parsing"), ("design built from -c", "src/boxes.c:build_design")],
    ["stdout, exit status, compared across configuration states"])

add("C17", "Text survives any history of draw, mend and remove runs, faults and retries",
    "Take a text document and any sequence of boxes runs that draw a box around it, mend the box and remove it again, each run reading the previous result and passing it on through files or pipes, where any run may fail or be killed and is then repeated from its unchanged input. At every point a successful mend of an intact box leaves it identical, and a successful removal returns the text exactly, with no line lost, added, reordered or altered.",
    ["histories", "fault_sequences", "crash_points"], "histories of several runs with different designs, options and texts, with read, write, allocation faults and kills inside them and a retry after each failure",
    "The tests contain single draw, remove or mend invocations with fixed expected output; no test chains runs or interrupts one.",
    ["src/generate.c", "src/remove.c", "src/detect.c", "src/boxes.c"],
    [("draw", "src/generate.c:generate_box"), ("remove", "src/remove.c:remove_box"), ("autodetection", "src/detect.c:autodetect_design"), ("mend", "src/boxes.c:main")],
    ["document content after every successful run"])

add("C18", "Diagnostics go to stderr only, and a broken stderr changes nothing",
    "Diagnostics and warnings never appear in the output stream or output file. When standard error cannot be written to, slow or broken, the output, the output file and the exit status are the same as with a working standard error.",
    ["fault_sequences", "inputs"], "runs that produce warnings or errors (broken designs, missing parents, invalid options, unreadable files) crossed with standard error failing at any byte",
    "The tests capture both streams together or with stderr always writable.",
    ["src/logging.c", "src/tools.c", "src/parsing.c", "src/boxes.c"],
    [("error output", "src/tools.c:bx_fprintf"), ("parser errors", "src/parsing.c:yyerror")],
    ["stdout, exit status with and without stderr faults"])

add("C19", "Damaged bytes in a configuration or input never crash or hang boxes",
    "When bytes of a configuration file, a parent configuration or the input text are damaged on storage (the end torn off, blocks lost, zeroed, doubled or stale, bits flipped, foreign bytes in their place), boxes still ends by itself, without being ended by a signal and without touching memory that is not its own. It either succeeds, or fails with a diagnostic and produces no box. The result does not depend on the content of memory. A box that is still drawn holds every line of the text, in order (replacement rules aside). A design which stands completely before the damaged place in its file is still available and draws the same box as before the damage.",
    ["fault_sequences", "inputs", "configurations"], "configurations and texts under every kind of storage damage at arbitrary byte positions, over all modes and options",
    "The tests contain a few dozen hand-written malformed configurations; damage may hit any byte of any construct and the failure may need a particular memory layout.",
    ["src/lexer.l", "src/parser.y", "src/parsecode.c", "src/parsing.c", "src/input.c", "src/unicode.c", "src/regulex.c", "src/shape.c", "src/generate.c", "src/detect.c", "src/remove.c"],
    [("lexing and error recovery", "src/lexer.l, src/parser.y, src/parsecode.c"), ("reading text", "src/input.c, src/unicode.c"), ("assembling sides", "src/generate.c:horiz_precalc,vert_precalc")],
    ["damaged and intact files, outcomes of paired runs, guarded heap"])

add("C20", "Text in any character encoding keeps its characters, also when converters cannot be opened",
    "For every encoding that can be named with -n and every text it can express (other than with characters whose width depends on the encoding), drawing, removing and mending give the result that the same text has in UTF-8, converted to that encoding, whatever encoding the locale has. If the system cannot open a character set converter at some moment (no descriptors, no memory, not installed), boxes either gives this result, or falls back to the encoding of the locale with a diagnostic, or ends with a non-zero status and a diagnostic; it is not ended by a signal and never outputs other text.",
    ["fault_sequences", "inputs", "environments"], "texts in 14 encodings under arbitrary locales, deliveries that split characters, and failures of any converter opening",
    "The tests use three encodings with a handful of characters and working converters; neither the locales nor failing converters can be varied in them.",
    ["src/unicode.c", "src/input.c", "src/boxes.c", "src/bxstring.c", "src/generate.c", "src/remove.c"],
    [("choice of the encoding", "src/unicode.c:check_encoding, src/boxes.c:main"), ("conversion of text", "src/unicode.c:u32_strconv_from_arg,u32_strconv_to_arg"), ("reading lines", "src/input.c:read_all_input")],
    ["output and exit status under -n and in UTF-8", "openings of converters"])

NA = "Inputs only: sampled single examples, compared with recorded output."
def na(id, title, statement, qtext, files, mech):
    add(id, title, statement, ["inputs"], qtext, NA, files, mech, ["stdout"], "none")
na("C30", "The box is a rectangle that fits its text for every size, padding and alignment",
   "For every text, design, padding, size and alignment the drawn box has straight sides of the design's shapes, encloses all text, honours requested padding and minimum size, and places and justifies the text as requested.",
   "all texts, designs and layout options", ["src/generate.c", "src/shape.c"], [("layout", "src/generate.c:generate_box")])
na("C31", "Removal recognises damaged boxes and picks the right design",
   "Autodetection chooses the design the box was drawn with, and removal returns the text even if parts of the box were shifted, shortened or lost their colour.",
   "all designs and all damages", ["src/detect.c", "src/remove.c"], [("detection", "src/detect.c:autodetect_design")])
na("C32", "Column arithmetic is right for wide, combining and invisible characters",
   "Double-width characters count two columns, combining characters and escape sequences none, in all layout computations.",
   "all Unicode texts", ["src/unicode.c", "src/bxstring.c"], [("width", "src/bxstring.c:bxs_from_unicode")])
na("C33", "Tabs are expanded, kept or unexpanded as requested",
   "With -t N[eku] leading tabs and spaces of the result follow the requested policy and tab distance, and text columns stay where they were.",
   "all texts and tab options", ["src/tools.c", "src/input.c"], [("tabs", "src/tools.c:expand_tabs_into, tabbify_indent")])
na("C34", "Regular expression rules of a design are applied to every line in order",
   "Replacement rules of a design are applied to each line in order when drawing, reversion rules when removing, once or globally as flagged.",
   "all rules and texts", ["src/regulex.c", "src/input.c"], [("substitution", "src/regulex.c:u32_regex_replace")])
na("C35", "Tag queries select exactly the matching designs",
   "A tag query prints exactly the designs that have one of the plain tags, all required and none of the excluded ones, with their aliases.",
   "all tag sets and queries", ["src/query.c"], [("filter", "src/query.c:filter_by_tag")])
na("C36", "Invalid configuration syntax is diagnosed and skipped design by design",
   "A syntax or consistency error in one design is reported with file and line and does not affect the other designs of the file.",
   "all configuration texts", ["src/parser.y", "src/parsecode.c", "src/lexer.l"], [("recovery", "src/parsecode.c:recover")])
na("C37", "The line terminator given with -e is used for every output line",
   "With -e CR, LF or CRLF every line of the output ends in exactly that terminator.",
   "all texts and modes", ["src/generate.c", "src/remove.c", "src/list.c"], [("eol", "src/generate.c:output_box")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
