"""Which explorers decide which property, and how the code under test is built for them."""
DBG = ["PASSGEN_DEBUG", "PASSGEN_MEMORY", "PASSGEN_MLOCK", "PASSGEN_MONOCYPHER"]
REL = ["PASSGEN_MEMORY", "PASSGEN_MLOCK", "PASSGEN_MONOCYPHER"]
ASAN = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
LIBS = {
    # address-sanitized static library, debug configuration (as tests) / release configuration
    "asan": dict(cflags=ASAN, config=DBG),
    "asan-rel": dict(cflags=ASAN + ["-DNDEBUG"], config=REL),
    # every public function interposable: random draws become choice points of the explorer
    "inter": dict(cflags=ASAN + ["-fPIC", "-fno-inline", "-fsemantic-interposition"], config=DBG, shared=True,
                  ldflags=["-fsanitize=address"]),
    "plain": dict(cflags=["-O2", "-g"], config=DBG),
    # every memory access and function entry of the library calls a hook of the explorer (the hooks of
    # the thread sanitizer, without its run-time library): each is a point where a schedule can switch
    "sched": dict(cflags=["-O1", "-g", "-fsanitize=thread", "-fno-builtin"], config=DBG, san=[]),
    "plain-rel": dict(cflags=["-O2", "-g", "-DNDEBUG"], config=REL),
}

CHECKS = {}
NOT_APPLICABLE = {}


def check(id, bins, bounds, technique, level_note, level="model_checking", **kw):
    CHECKS[id] = dict(bins=bins, bounds=bounds, technique=technique, level_note=level_note, level=level, **kw)


PATTERN = dict(name="pattern", lib="inter", srcs=["checks/pattern.cpp"])

ASSUME_BASE = ["The reference semantics in mc/ are correct; they were written from the documentation and are exercised against the code on every enumerated case.",
               "Properties are decided for the compiled code (gcc, x86-64) within the stated bounds; beyond them the argument is by the small-scope hypothesis."]

for pid, what in (("C01", "acceptance and error position of every enumerated string compared with a reference parser"),
                  ("C02", "support of the draw tree compared with the denoted language"),
                  ("C03", "exact output distribution of the complete draw tree compared with the reference distribution"),
                  ("C04", "joint distribution of (output, reported entropy) compared with the reference")):
    check(pid, [PATTERN], dict(quick="token strings up to length 6 (14 symbols) / 4 (24 escape symbols), structured patterns up to cost 6, size ladders, up to 4097 nested or 65537 adjacent constructs, many elements/groups/ranges, repeat ranges around 2^8..2^32, all sequences of up to 4 outcomes of decisions with ranges to 2^31",
                               thorough="token strings up to length 7 / 5, structured patterns up to cost 7, the same ladders, longer"),
          "stateless model checking: exhaustive enumeration of patterns x complete trees of random draws of the real generator, against an executable reference",
          what, assumptions=ASSUME_BASE)

RANDOM = dict(name="random", lib="asan", srcs=["checks/random.cpp"])
RANDOM_PLAIN = dict(name="random-plain", lib="plain", srcs=["checks/random.cpp"])

check("C05", [RANDOM], dict(quick="all request sequences up to length 4 over 13 request kinds from 7 buffer positions; every buffer position x request size near a boundary; 1.2 MB (thorough 16 MB) of requests of 27 sizes and pairs of them, from sources with partial reads; large requests up to 2^23 bytes",
                            thorough="length 5; every buffer position x every request size"),
      "stateless model checking: exhaustive enumeration of request histories against the real buffer code over a source that labels every byte with its position",
      "each delivered byte is identified by three labelled runs", assumptions=ASSUME_BASE)
check("C06", [RANDOM_PLAIN], dict(quick="all words x all bounds for 8 and 16 bits; all 2^32 words for 8 bounds of 32 bits; boundary words for about 10000 bounds of 32 and 64 bits",
                                  thorough="30 bounds of 32 bits, 20000 more boundary bounds"),
      "explicit exhaustive enumeration of source words through the real draw functions, counting every value; boundary words against exactly uniform maps for wide words",
      "8/16 bit complete; wider words by full enumeration for selected bounds and boundary words for the rest", assumptions=ASSUME_BASE + ["For 32/64-bit bounds not enumerated completely, a draw that agrees with one exactly uniform map on all boundary words is that map."])
check("C07", [RANDOM], dict(quick="request sequences up to length 3 over 17 kinds x 13 sources; all positions to 1030; all seeks to 5000 and around powers of two; 0.7 MB (thorough 15 MB) of requests of 15 sizes, requests around powers of two to 2^21; all single-bit keys/nonces/seeds",
                            thorough="sequences up to length 4; seeks to 20000"),
      "stateless model checking: exhaustive enumeration of request/seek histories, real streams compared byte for byte with an independent reference through a nondeterministic buffering model",
      "reference ChaCha20 and xorshift64 in mc/ref_stream.hpp", assumptions=ASSUME_BASE)

UNITS = dict(name="units", lib="asan", srcs=["checks/units.cpp"])

check("C09", [UNITS], dict(quick="all byte strings to length 3 (4 behind critical prefixes), class representatives to length 5, runs of up to 160 bytes between 288 pairs of fragments, all code points, width sequences to length 5 x all output sizes, texts of up to 2^20 characters",
                           thorough="representatives to length 6, all 2^32 values, width sequences to length 7"),
      "explicit-state exploration: exhaustive enumeration of byte strings, code points, and output-space splits (with resumption histories) on the real code against a reference automaton",
      "complete for code points and for all byte strings up to 3 bytes", assumptions=ASSUME_BASE)
check("C10", [UNITS], dict(quick="all sequences over 17 symbols to length 6; every code point in 16 automaton states; every payload; inputs of up to 2^20 tokens",
                           thorough="sequences to length 7, all payloads in every case variant"),
      "explicit-state exploration of the real tokenizer automaton in lockstep with a reference automaton",
      "every transition of the automaton on every code point", assumptions=ASSUME_BASE)
check("C13", [UNITS], dict(quick="all push/pop sequences of length 7 from every length 0..140; run patterns; arrays likewise; up to 5000000 elements of up to 4096 bytes",
                           thorough="sequences of length 10 from every length 0..300"),
      "stateless model checking: exhaustive enumeration of operation histories on the real containers under AddressSanitizer against an ideal sequence",
      "every growth and shrink boundary up to 300 elements, larger ones by run patterns", assumptions=ASSUME_BASE)

HASHMAP = dict(name="hashmap", lib="asan", srcs=["checks/hashmap.cpp"])
HASHMAP_PLAIN = dict(name="hashmap-limited", lib="plain", srcs=["checks/hashmap.cpp"], args=["--limited"])

check("C12", [HASHMAP, HASHMAP_PLAIN], dict(quick="all reachable states for all slot-pair assignments of up to 4 keys (x 4 collision modes), colliding string key sets, up to 3000 keys, key pairs up to 65792 characters, growth forced through all capacities to 2.5 million",
                             thorough="up to 5 keys, patterns up to 100000 keys, keys up to 16777220 characters"),
      "explicit-state model checking of the real hash map: breadth-first exploration of all reachable table states (by replayed histories), every operation in every state, against an ideal map",
      "unbounded histories for each key set, since the state graph is explored to its fixpoint", assumptions=ASSUME_BASE)

MASTER = dict(name="master", lib="asan", srcs=["checks/master.cpp"])

check("C08", [MASTER], dict(quick="component lengths to 300 and around powers of two to 2^20 (thorough 2^24), 22^3/4 length combinations, 2700 triples, all description strings over 4 symbols to length 6, all parameter combinations to 4 lanes x 4 passes x 140 blocks",
                            thorough="lengths to 600, all length combinations, descriptions to length 8, 6 lanes, 300 blocks"),
      "exhaustive enumeration of bounded input spaces on the real code against an executable reference model of Argon2id, ChaCha20 and the description grammar",
      "the reference Argon2 passes the RFC 9106 vector", assumptions=ASSUME_BASE)

WORDS = dict(name="words", lib="inter", srcs=["checks/words.cpp"])

check("C14", [WORDS], dict(quick="all lists of up to 3 words of up to 3 letters over 2 letters x orders 1-4, pairs over 3 letters; 1..24 characters at 16 spacings; orders to 255, words to 1000 characters; chains with up to 1100000 distinct characters, lists of up to 262145 equal words; every code point below U+3000",
                           thorough="60 characters, all lists in every collision class, every code point"),
      "stateless model checking: exhaustive enumeration of word lists; in every context of every model all random draws of the real step function, and the complete draw tree of whole words, against exact n-gram counts",
      "exact distributions per step and per word (words up to 6 characters)", assumptions=ASSUME_BASE)
check("C15", [WORDS], dict(quick="all contents to length 6 over 6 symbols, to length 4 over 15 symbols; list sizes to 1100 and around powers of two to 131073; word lengths to 700 and around powers of two to 100000; all sequences of up to 4 picks of 4 words from lists up to 131073 words",
                           thorough="contents to length 7 / 5, word lengths to 1400, all subsets of 14 names"),
      "stateless model checking: exhaustive enumeration of wordlist contents x all draws of the real pick",
      "every draw of every list", assumptions=ASSUME_BASE)

DEPTH = dict(name="depth", lib="inter", srcs=["checks/depth.cpp"])

check("C20", [DEPTH], dict(quick="all group structures up to cost 6 x every limit; nesting to 70 and around 1024; all token strings up to length 5 x every parser limit; parser limits to 2^64-1, nesting to 65540",
                           thorough="cost 7, nesting to 200, strings to length 6"),
      "stateless model checking: exhaustive enumeration of patterns x nesting limits x complete trees of random draws, against an executable reference",
      "failure probability and output distribution compared exactly", assumptions=ASSUME_BASE)

FILL = dict(name="fill", lib="inter", srcs=["checks/fill.cpp"])

check("C16", [FILL], dict(quick="all strings of up to 5 of 9 character classes, all patterns to cost 4 x 60 outcomes, lengths to 80 and around powers of two to 65537, every code point; x every buffer size x 3 forms; depth limits and failures in the middle of the output",
                          thorough="6 characters, cost 5 x 400 outcomes, lengths to 300"),
      "stateless model checking: exhaustive enumeration of patterns x trees of random draws x buffer sizes, on exactly sized buffers under AddressSanitizer, against reference encodings and an RFC 8259 reader",
      "the code point form is compared with the callback form on the same draws", assumptions=ASSUME_BASE)

HISTORY = dict(name="history", lib="plain", srcs=["checks/history.cpp"])

check("C22", [HISTORY], dict(quick="every probe 70000 times with seeds in turn, every operation 1..300 (some 70000) times, all pairs of about 270 operations, all triples of 18, on own and shared objects; all patterns to cost 6 in 4 forms x entropy x batch/fresh objects; repeated picks from word lists with every byte value (malformed words too) at each position",
                             thorough="all triples of about 80 operations"),
      "stateless model checking: exhaustive enumeration of histories of library operations, each in a fresh process, followed by probe generations compared with those of a process without history",
      "sources are the library's deterministic ones; heap memory is filled with two different patterns", assumptions=ASSUME_BASE)

CLI = dict(name="cli", lib="asan", srcs=["checks/cli.cpp"], repo_srcs=["src/cli/passgen.c", "src/cli/main.c"],
           repo_cflags=["-Dmain=passgen_main"],
           ldflags=["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=open64,--wrap=openat"])
CHECKS["C08"]["bins"].append(CLI)
CHECKS["C08"]["bounds"]["quick"] += "; 20000 command lines with -m/-d/-t; 5000 descriptions against options"

CLI_TECH = "stateless model checking: exhaustive enumeration of %s through the real command-line tool (one process each, under AddressSanitizer) against an executable model of the documentation"
check("C17", [CLI], dict(quick="every code point, all pairs of special characters, all subsets of 9 options, amounts to 65537, all patterns to cost 3, lengths to 100000",
                         thorough="amounts to 10^6, patterns to cost 4"),
      CLI_TECH % "command lines and patterns", "output judged by a strict RFC 8259 reader", assumptions=ASSUME_BASE + ["Expected passwords come from the library, which the other properties decide."])
check("C18", [CLI], dict(quick="all sequences of up to 2 of 49 tokens x 3 command lines, ordered selections of up to 4 of 16 options, every spelling at every place, empty arguments of every option in sequences of up to 3, amounts, patterns to cost 3, late failures",
                         thorough="sequences of 3, selections of 5, patterns to cost 4"),
      CLI_TECH % "command lines", "expected passwords come from the library with the same source", assumptions=ASSUME_BASE + ["Expected passwords come from the library, which the other properties decide."])
check("C19", [CLI], dict(quick="all configuration files of up to 2 of 32 lines and 3 of 14, all override subsets, every byte at 19 places of a definition, sizes around 10240*2^k, up to 2000 definitions, path lengths around 4096",
                         thorough="3 of 32 lines, sizes to 10^6"),
      CLI_TECH % "configuration files", "built-in presets compared with their documented formats position by position", assumptions=ASSUME_BASE + ["Expected passwords come from the library, which the other properties decide."])

FAULT = dict(name="fault", lib="plain", srcs=["checks/fault.cpp"], ldflags=["-Wl,--wrap=getrandom,--wrap=getentropy"])
FAULT_REL = dict(FAULT, name="fault-rel", lib="plain-rel")
FAULT_CLI = dict(name="faultcli", lib="asan", srcs=["checks/faultcli.cpp"], repo_srcs=["src/cli/passgen.c", "src/cli/main.c"],
                 repo_cflags=["-Dmain=passgen_main"],
                 ldflags=["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=open64,--wrap=openat,--wrap=getrandom"])
FAULT_CLI_REL = dict(FAULT_CLI, name="faultcli-rel", lib="asan-rel")

check("C21", [FAULT, FAULT_REL, FAULT_CLI, FAULT_CLI_REL],
      dict(quick="all histories of up to 2 of 9 and 3 of 6 request sizes, runs of 9 kinds of draws at 14 buffer positions, fault points around all request and buffer boundaries x 7 kinds x 5 kinds of sources; every fault point of 7 histories; the tool with 120 fault points x 7 kinds x 12 command lines; debug and release",
           thorough="3 of 9 request sizes, all kinds on all sources, 500 fault points of the tool"),
      "fault enumeration: every kind of fault at every point of bounded request histories, each in its own process, on the real code with an injected device",
      "a fault is an error, end of file, empty or short read, once or for good, of getrandom, of a stdio stream, of a custom source or of a real file",
      level="fault_enumeration",
      rule="a case is (source, history, kind of fault, number of bytes delivered before it); non-trivial if the fault was actually met; it passes if the process stops with an error before answering a request with bytes the device did not deliver, or finishes with exactly the device's bytes",
      assumptions=ASSUME_BASE + ["System randomness is obtained through getrandom (redirected at link time)."])

SECCOMP = dict(name="seccomp", lib="plain", srcs=["checks/seccomp.cpp"], repo_srcs=["src/cli/passgen.c", "src/cli/main.c"],
               repo_cflags=["-Dmain=passgen_main", "-DPASSGEN_SECCOMP"],
               ldflags=["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=open64,--wrap=openat,--wrap=getrandom,--wrap=syscall,--wrap=prctl", "-l:libseccomp.a", "-lutil"])

check("C24", [SECCOMP], dict(quick="2700 system call numbers x 8 architectures, every path of the filter over about 150 representative values per argument word; 4000 real calls; 1900 runs of the tool",
                             thorough="20000 numbers, all pairs of flag bits"),
      "explicit-state exploration of the captured BPF program with the words of the system call as choice points, against the documented set of operations; verdicts replayed on the real kernel; exhaustive enumeration of command lines under the real filter",
      "the classes of values are complete for the comparisons the filter makes, so the verdict is decided for all arguments of the numbers considered", assumptions=ASSUME_BASE + ["The kernel supports seccomp filters and loading them succeeds.", "glibc on x86-64."])

RELEASE = dict(name="release", lib="plain", srcs=["checks/release.cpp"], ldflags=["-Wl,--wrap=getrandom,--wrap=free", "-Wl,-z,now"])
RELEASE_REL = dict(RELEASE, name="release-rel", lib="plain-rel")

check("C23", [RELEASE, RELEASE_REL], dict(quick="all histories of up to 2 of 20 and 3 of 7 operations, every buffer position, on 10 kinds of sources x 4 ways to release them; up to 3 sources released in every order; about 5000 objects of 15 kinds; debug and release",
                                          thorough="positions to 2200, 4 sources, all kinds everywhere"),
      "stateless model checking: exhaustive enumeration of request histories x release operations on the real code, each followed by a search of all writable memory of the process for every 8-byte piece of the source's stream, key and state",
      "static data, heap (also freed), stdio buffers: any 8 bytes; the library's stack: any 32 bytes in a row", assumptions=ASSUME_BASE + ["Registers and pages already returned to the kernel are not searched.", "A caller's FILE is unbuffered."])

CRASH = dict(name="crash", lib="asan", srcs=["checks/crash.cpp"])
CRASH_REL = dict(CRASH, name="crash-rel", lib="asan-rel", args=["--limited"])

check("C11", [CRASH, CRASH_REL], dict(quick="all byte strings to length 3, token strings to length 6 of 14, 5 of 13 and 5 of 15 symbols, structured patterns to cost 5, sizes to 3000000, 29 extreme numbers in every pair of places, every abandoned parser, invalid code points, wordlist contents to length 4; debug build, and with one symbol less the release build",
                                      thorough="one symbol more everywhere"),
      "stateless model checking: exhaustive enumeration of pattern inputs, parser histories and wordlists through parse, generation in every form and free on the real code, under AddressSanitizer with a balance of all allocations",
      "a case ends normally, in time, and with every byte it allocated freed", assumptions=ASSUME_BASE + ["Allocation does not fail."])

OUTPUT = dict(CLI, name="output", srcs=["checks/output.cpp"], ldflags=CLI["ldflags"] + ["-lutil"])
check("C25", [OUTPUT], dict(quick="115 command lines x every length limit to 100 bytes (short outputs) or around every multiple of 1024/4096 to 73728 (long ones); 22 other kinds of standard output x 3 configurations; streams whose writes number 1..24 fail or are short x 3 kinds of buffering",
                            thorough="every limit to 700, every 97th to 80000, outputs of 600000 bytes"),
      "fault enumeration: every kind of fault of standard output at every point of bounded outputs, each in its own process of the real tool",
      "a fault is a limit on the size, an error, a missing or leaving reader, a full pipe or a lost terminal",
      level="fault_enumeration",
      rule="a case is (command line, kind of standard output, number of bytes it takes); non-trivial if not everything can be delivered; it passes if the exit status is zero exactly when everything was delivered, and what was delivered is the beginning of the output",
      assumptions=ASSUME_BASE)

MARKER = dict(CLI, name="marker", srcs=["checks/marker.cpp"])
check("C26", [MARKER], dict(quick="all strings to length 5 over 17 symbols; 16 kinds of errors x 11 prefixes x lengths to 140, every 7th to 600 and around powers of two to 2^17 x 4 suffixes; 2000 characters; the tool with strings to length 2 from 3 origins",
                            thorough="length 6, lengths to 3000, the tool with strings to length 3"),
      "stateless model checking: exhaustive enumeration of rejected patterns through the real parser, the real message and the real tool, against the error position of the reference parser",
      "the marker's column is compared with the reference position in characters", assumptions=ASSUME_BASE + ["Every character of the enumerated patterns takes one column."])

LOCK = dict(CLI, name="lock", lib="plain", srcs=["checks/lock.cpp"], ldflags=CLI["ldflags"] + ["-Wl,--wrap=getrandom"])
check("C27", [LOCK], dict(quick="10 sources x 13 uses x none, one or all of 8 options and all pairs of 5 configurations; amounts to 20000; sizes to 1 MB",
                          thorough="all subsets of 8 options"),
      "stateless model checking: exhaustive enumeration of command lines and configurations through the real tool, with the kernel's record of locked memory observed at every opening of a file, every read of randomness and at exit",
      "locks are read from the kernel (smaps) for every writable private mapping, and tried with new memory", assumptions=ASSUME_BASE + ["Where the system does not permit locking memory, the calls that ask for it are recorded instead."])

SCHED_WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strdup", "strndup", "strtok",
              "malloc", "calloc", "realloc", "free", "fread", "fgetc", "fclose", "strtoull", "strtoul", "strtol", "getenv", "vsnprintf", "snprintf", "sprintf"]
SCHED = dict(name="sched", lib="sched", srcs=["checks/sched.cpp"], ldflags=["-Wl," + ",".join("--wrap=" + w for w in SCHED_WRAP)])
check("C28", [SCHED], dict(quick="all ordered pairs of 40 uses: one switch at every memory access (calls, for three long ones), two switches at every pair of possibly conflicting accesses (up to 40000) and 600 pairs of calls; every use inside every callback of every other",
                           thorough="20000 pairs of calls, 3000 accesses of the long ones"),
      "stateless model checking: exhaustive exploration of the interleavings of two threads running the real code, up to two switches, under a scheduler that controls every memory access of the library; accesses that cannot conflict are reduced",
      "results of every use compared with its result alone", assumptions=ASSUME_BASE + ["Memory is sequentially consistent.", "The C library's functions are free of interference where the standard says so."])

SMALL = dict(name="small", lib="asan", srcs=["checks/small.cpp"], versions=True)
check("C29", [SMALL], dict(quick="48 library versions and the project's own x all 2^24 requested versions", thorough="the same, complete"),
      "explicit exhaustive enumeration of all requested versions against the real comparison, compiled for many versions of the library",
      "complete for each library version", assumptions=ASSUME_BASE)
check("C30", [SMALL], dict(quick="every length 0..1100 and around powers of two to 2^22 x 16 contents and keys, every alignment, every single bit of inputs of up to 130 bytes and of the key",
                           thorough="lengths to 4200 and 2^27, single bits to 600 bytes"),
      "explicit exhaustive enumeration of input lengths, alignments and single-bit inputs through the real function, against a reference written from the definition",
      "SipHash uses its data only by addition, rotation and exclusive or of whole words, so that contents beyond the enumerated ones use no other code", assumptions=ASSUME_BASE)
check("C31", [SMALL], dict(quick="all sequences of up to 4 changes of 15 kinds, every request after each; all 243 combinations of functions and states in two orders", thorough="5 changes"),
      "stateless model checking: exhaustive enumeration of operation histories on the real context against a model of its five members",
      "all 243 states of the model are reached", assumptions=ASSUME_BASE)
