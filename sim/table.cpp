#include "props.h"
#define STD (MIN_FAULTS | MIN_KNOBS | MIN_ARGS | MIN_FS | MIN_TEXT | MIN_ENV)
const Prop props[] = {
    {"C01", gen_C01, check_C01, (STD | MIN_KV) & ~MIN_ARGS, 20000, 200000, "exploration",
     "A case is a seeded text and design (or shipped design), a mode, and 3 to 5 deliveries of the same bytes (read sizes, stalls, stdin, '-', named "
     "file, buffer sizes). Non-trivial: the deliveries produced output that was compared with the line model or with each other."},
    {"C02", gen_C02, check_C02, STD, 15000, 100000, "fault_enumeration",
     "A case is a seeded filter run plus a sweep of read errors over byte positions of the input (start, end, line and buffer borders, random). "
     "Non-trivial: at least one injected error was met by a read of the input."},
    {"C03", gen_C03, check_C03, STD, 12000, 100000, "fault_enumeration",
     "A case is a seeded run of any mode plus a sweep of write, flush and close faults over byte positions of its output. "
     "Non-trivial: at least one write or close of the output was made to fail or was cut short."},
    {"C04", gen_C04, check_C04, STD, 60000, 400000, "exploration",
     "A case is a seeded population of all configuration locations (file, directory, unreadable, missing, not statable) and environment; the model "
     "computes the one file that must be used, each file holding a design that identifies it. Non-trivial: the model's prediction was compared."},
    {"C05", gen_C05, check_C05, STD, 15000, 100000, "fault_enumeration",
     "A case is a seeded run with one or more configuration files plus a sweep of read, open and stat faults and of chunkings on them. "
     "Non-trivial: a fault hit a configuration file, or another chunking was compared."},
    {"C06", gen_C06, check_C06, STD, 60000, 400000, "exploration",
     "A case is a seeded graph of configuration files (cycles, diamonds, repeated, missing and unopenable parents); the model computes visible designs by "
     "distance. Non-trivial: list, query or drawing was compared with the model."},
    {"C07", gen_C07, check_C07, STD, 14000, 100000, "fault_enumeration",
     "A case is a seeded run of any mode plus a sweep of failing allocations (the n-th, or all from the n-th on). Non-trivial: at least one allocation "
     "failed after main() was entered."},
    {"C08", gen_C08, check_C08, STD | MIN_LOCK | MIN_RUNS, 24000, 200000, "exploration",
     "A case is a group of runs of one task under different memory contents, allocator placement and reuse, stack contents, clocks, identities, working "
     "directories and irrelevant variables. Non-trivial: output was produced and compared."},
    {"C09", gen_C09, check_C09, STD, 18000, 100000, "fault_enumeration",
     "A case is a seeded run of any mode under random faults and kills; the file system before and after and every modifying call are compared. "
     "Non-trivial: a fault fired or an output file was written."},
    {"C10", gen_C10, check_C10, STD, 50000, 400000, "exploration",
     "A case is a run whose standard input never delivers anything (where boxes must not need it), or a filter run with slow tiny deliveries; "
     "blocking and step bounds are checked. Non-trivial: the bound or the absence of reads was decided."},
    {"C11", gen_C11, check_C11, STD, 7000, 60000, "fault_enumeration",
     "A case is a run with an output file plus a sweep of kills over its system calls, then kills of the rerun, then a complete rerun. "
     "Non-trivial: at least one kill happened after the output file was opened."},
    {"C12", gen_C12, check_C12, STD | MIN_LOCK, 30000, 150000, "exploration",
     "A case is five runs of one task: no colour option, --no-color and --color under different terminals. Non-trivial: the result with and without "
     "colour differs."},
    {"C13", gen_C13, check_C13, STD, 9000, 60000, "fault_enumeration",
     "A case is a run plus a sweep of moments (system calls) at which a configuration, parent or input file is atomically replaced or removed. "
     "Non-trivial: old and new version give different results."},
    {"C14", gen_C14, check_C14, STD & ~MIN_ARGS, 80000, 400000, "exploration",
     "A case is a run with one invalid option value, excess file, unopenable input or unopenable output. Non-trivial: boxes rejected the run."},
    {"C15", gen_C15, check_C15, STD, 30000, 200000, "fault_enumeration",
     "A case is a run with up to 30 (thorough 80) configuration files and searched locations, unlimited and under a tight descriptor limit. "
     "Non-trivial: several configuration files were opened."},
    {"C16", gen_C16, check_C16, STD & ~(MIN_ARGS | MIN_ENV), 30000, 150000, "exploration",
     "A case is a -c run without any configuration and the same run with present, broken, unreadable or failing configurations. Non-trivial: output "
     "was produced and compared."},
    {"C17", gen_C17, check_C17, (STD | MIN_KV | MIN_RUNS) & ~MIN_ARGS, 25000, 150000, "exploration",
     "A case is a history of draw, mend and remove runs over one document with faults, kills and retries; the text is compared after each step. "
     "Non-trivial: at least one box was drawn and processed further."},
    {"C18", gen_C18, check_C18, STD, 20000, 100000, "fault_enumeration",
     "A case is a run that writes diagnostics plus a sweep of standard error failures. Non-trivial: a diagnostic was written or its write failed."},
    {"C19", gen_C19, check_C19, STD | MIN_LOCK, 30000, 400000, "fault_enumeration",
     "A case is a run whose configuration, parent or text was damaged on storage (torn off, blocks zeroed, lost, stale or doubled, bits flipped, foreign "
     "bytes), under two memory layouts. Non-trivial: boxes noticed the damage, or a design before the damage was compared."},
    {"C20", gen_C20, check_C20, MIN_FAULTS | MIN_KNOBS | MIN_TEXT | MIN_STDIN, 20000, 150000, "fault_enumeration",
     "A case is a draw, remove or mend run under -n with a text in one of 14 character encodings, compared with the same run in UTF-8, plus a sweep of "
     "failing openings of character set converters. Non-trivial: output was compared and the text is not plain ASCII, or a converter failed."},
};
const int num_props = sizeof props / sizeof props[0];
