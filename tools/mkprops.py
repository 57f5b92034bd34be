#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit and diff)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Patterns are accepted exactly when they follow the pattern grammar",
 "For every byte string, parsing it as a pattern succeeds exactly when it is well-formed UTF-8 and follows the documented pattern syntax (literals, escapes, unicode escapes, sets and ranges, groups, alternatives with weights, repeats, optional items, wordlist/markov/preset references); everything else - unbalanced groups, unclosed constructs, unknown escapes, reversed ranges, repeat ranges whose upper bound is below the lower one, a dangling '?', trailing or malformed escapes - is rejected. When a pattern is rejected for its syntax, the reported position is that of the first token that no acceptable pattern could have at that place, or the end of the pattern if it is merely incomplete.",
 ["inputs"], "all pattern strings", "Unit tests parse a few dozen hand-picked strings; acceptance is a property of the whole input space, and the interesting errors are interactions (an escape inside a set inside a repeat, a non-ASCII character whose low byte is a metacharacter).",
 ["src/parser/parser.c","src/parser/token.c","src/passgen.c","src/util/utf8.c"],
 [("parser state machine", "src/parser/parser.c passgen_parse_token"),("tokenizer","src/parser/token.c passgen_token_parse"),("driver","src/passgen.c passgen_parse")],
 [("parser.state","stack of open constructs","src/parser/parser.c")], ["return value of passgen_parse","passgen_error.offset"])

prop("C02", "Every generated password belongs to the language of its pattern",
 "For every accepted pattern and every possible outcome of the random decisions, a successful generation emits exactly a string that the pattern denotes: literals verbatim, one listed character per set, one alternative of positive weight per group, a repetition count within the stated bounds, optional items either absent or present. Generation fails only if the pattern offers no alternative at all, refers to an unknown wordlist, nests deeper than the configured limit, or the output does not fit.",
 ["inputs","histories"], "all accepted patterns x all outcomes of all random draws", "Tests run a few patterns with one or two seeds; wrong outputs that need a specific random outcome, a literal longer than one storage cell, or more than 32 items are never sampled.",
 ["src/generate.c","src/parser/parser.c","src/pattern/group.c","src/pattern/literal.c","src/pattern/segment.c","src/container/stack.c"],
 [("generator","src/generate.c passgen_generate"),("pattern construction","src/parser/parser.c passgen_parse_group")],
 [("pattern tree","parsed pattern","include/passgen/pattern/pattern.h")], ["codepoints passed to the generate callback"])

prop("C03", "Random choices have exactly the probabilities the pattern specifies",
 "For every accepted pattern, with an ideal uniform byte source, each possible output has exactly its specified probability: alternatives are chosen in proportion to their weights (default 1, weight 0 never), every listed character of a set (ranges counted by size, duplicates counted as often as listed) equally likely, every repetition count of a repeat range equally likely, and an optional item present with probability one half. All these choices are made independently of each other, and anew for every repetition.",
 ["inputs","histories"], "all accepted patterns x all outcomes of all random draws", "Bias is invisible to example-based tests: only summing over all outcomes shows that a character or alternative is slightly too likely, never chosen, or that two choices share randomness.",
 ["src/generate.c","src/parser/parser.c","src/random/random.c","src/pattern/group.c"],
 [("weighted choice","src/generate.c passgen_generate_group"),("set choice","src/generate.c passgen_generate_set"),("bounded draw","src/random/random.c passgen_random_u64_max")],
 [("multiplier_sum","total weight of a group","include/passgen/pattern/group.h"),("choices_list","cumulative set sizes","include/passgen/pattern/set.h")], ["codepoints passed to the generate callback","random draws"])

prop("C04", "The reported entropy is that of the random decisions actually taken",
 "Whenever entropy is requested, the reported value for a generated output is exactly the reciprocal of the probability of the sequence of choices that produced it: the product, over every alternative, set character, repetition count, optional item, wordlist word and markov step chosen, of one over that choice's probability. Decisions that were not taken (the contents of an absent optional item or a zero-repetition) contribute nothing, and asking for the entropy never changes what is generated.",
 ["inputs","histories"], "all accepted patterns (including wordlist and markov references) x all outcomes of all random draws", "The entropy tests check a handful of constants; a missing factor for one construct or combination (optional, weighted, nested repeat) makes the security estimate shown to the user wrong.",
 ["src/generate.c","src/markov.c","src/cli/passgen.c"],
 [("entropy accumulation","src/generate.c"),("markov entropy","src/markov.c passgen_markov_generate")],
 (), ["*entropy after passgen_generate and passgen_generate_fill_*"])

prop("C05", "Random bytes are delivered in order and never handed out twice",
 "Whatever the sequence of requests on a randomness source (byte reads of any size, typed draws, in any order and at any position relative to the internal buffer), no byte obtained from the underlying source is ever delivered twice, and every delivered byte is a byte of the source. As long as no single request exceeds the internal buffer size (1024 bytes), the bytes delivered are exactly the source's bytes in order with none skipped; a larger request is served with one contiguous run of fresh source bytes; a request writes exactly the requested number of bytes.",
 ["histories"], "all histories of read requests over all buffer positions and request sizes", "Tests make a few reads at chosen positions; reuse of random bytes (which correlates passwords) only happens at particular combinations of buffer position and request size.",
 ["src/random/random.c"], [("buffered read","src/random/random.c passgen_random_read"),("reload","src/random/random.c passgen_random_reload")],
 [("pos","read position in the buffer","include/passgen/random.h")], ["bytes returned by passgen_random_read and the typed draws"])

prop("C06", "Bounded random draws are exactly uniform for every bound",
 "For every bound (of 8, 16, 32 or 64 bits), a bounded draw terminates with a value below the bound, and over all equally likely source words every value is equally likely - out-of-range words are rejected and redrawn from fresh bytes, never folded back or clamped. The unbounded typed draws return the little-endian value of exactly as many fresh source bytes as their width, and the boolean draw is true for exactly half of the byte values.",
 ["inputs","histories"], "all bounds x all source words", "Tests draw a number of values from one generator; a modulo bias, an off-by-one bound or a mask that is wrong for one bit width would still pass.",
 ["src/random/random.c"], [("rejection sampling","src/random/random.c passgen_random_u*_max")], (), ["values returned by passgen_random_u8_max .. passgen_random_u64_max"])

prop("C07", "Deterministic sources produce their specified byte stream for any reads",
 "For every seed or key and nonce, the xorshift, ChaCha20, zero and file sources deliver exactly the byte stream defined by the algorithm (xorshift64 words with shifts 13, 7, 17 in little-endian order; the original 64-bit-nonce ChaCha20 keystream from block 0; zeros; the file's bytes), however the stream is partitioned into requests; a request larger than the internal buffer gets a contiguous run of it. Seeking a ChaCha20 source to any byte position continues exactly with the keystream from that position, also after arbitrary earlier reads and for odd, non-block-aligned positions.",
 ["inputs","histories"], "all seeds/keys x all partitions of the stream into reads and all seek positions", "Fixed-vector tests check the first bytes only; errors at block boundaries after unaligned reads, or in seek, depend on the history of requests.",
 ["src/random/deterministic.c","src/random/xorshift.c","src/random/zero.c","src/random/system.c","src/random/random.c","src/monocypher.c"],
 [("chacha20 reader","src/random/deterministic.c passgen_random_chacha20_read"),("seek","src/random/deterministic.c passgen_random_chacha20_seek"),("xorshift reader","src/random/xorshift.c")],
 [("offset","keystream position","src/random/deterministic.c")], ["bytes returned by passgen_random_read"])

prop("C08", "Master-passphrase mode is Argon2id with every component kept separate",
 "For every passphrase, domain and token, the master-passphrase randomness is the ChaCha20 stream keyed with Argon2id(passphrase, salt 'passgen', secret=domain, associated data=token) under the documented or given cost parameters, so the same three inputs always give the same password and the result depends on every byte of each of them and on which component it is part of. Randomness descriptions of the form 'chacha20:KEY[:IV]' and 'chacha20-argon2:PASS[:DOMAIN[:TOKEN]]', and the command-line options, denote exactly the same streams (a nonce is the first eight bytes given, zero-padded), and malformed or over-long descriptions are rejected rather than misread.",
 ["inputs","configurations"], "all (passphrase, domain, token, parameters) and all description strings", "Tests pin a few vectors with short inputs; truncation, confusion of components, or length-dependent mistakes show only on other lengths and combinations.",
 ["src/random/deterministic.c","src/random/random.c","src/monocypher.c","src/cli/passgen.c"],
 [("key derivation","src/random/deterministic.c passgen_random_chacha20_argon2_open"),("description parsing","src/random/random.c passgen_random_open_parse")],
 (), ["bytes of the opened source"])

prop("C09", "UTF-8 conversion is exact, strict and independent of chunking",
 "Decoding accepts exactly the well-formed UTF-8 byte sequences (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes) and yields their code points and byte widths; encoding any Unicode scalar value and decoding it again returns it, and values above U+10FFFF are refused. When output space is limited, conversion stops at a character boundary, reports how far it got, never writes beyond the given space, and resuming from there yields the same result as a single conversion.",
 ["inputs","histories"], "all byte strings, all code points, all output-buffer sizes", "Tests use sample strings; only exhaustive enumeration of code points, byte sequences and buffer splits covers the decoder automaton.",
 ["src/util/utf8.c"], [("decoder automaton","src/util/utf8.c passgen_utf8_decode"),("encoder","src/util/utf8.c passgen_utf8_encode, passgen_utf8_encode_codepoint")], (), ["return codes, produced code points/bytes and positions"])

prop("C10", "Tokens are recognised exactly, with exact positions and sticky errors",
 "For every sequence of code points, tokenising yields the specified tokens: ordinary characters stand for themselves, the simple escapes (a b e f n r t v and backslash) for their control characters, '\\u{HEX}' with up to six hex digits for that code point, and any other escaped character is marked as escaped; malformed unicode escapes and code points beyond U+10FFFF are errors. Every token carries the character and byte offset of its first character, the tokenizer is incremental (state carries over between calls), and after an error it stays in error.",
 ["inputs","histories"], "all code point sequences, all widths", "Tests exercise selected escapes; off-by-one lookups for other escaped characters and offsets after multi-byte characters and long escapes are not sampled.",
 ["src/parser/token.c"], [("token automaton","src/parser/token.c passgen_token_parse")], [("state","automaton state","include/passgen/parser/token.h")], ["return value and token of passgen_token_parse"])

prop("C11", "No pattern input can crash, corrupt, hang or leak memory",
 "For every byte string used as a pattern, parsing either succeeds or reports an error, and parsing, generating (in every output form) and freeing finish without memory errors, failed internal assertions, or stuck loops, and without leaking memory once the objects are freed - whether parsing succeeded or failed. This holds for arbitrary nesting, lengths of literals, names and sets, numbers of alternatives and items, extreme repeat counts and weights, and wordlist contents.",
 ["inputs","histories"], "all byte strings used as patterns, all wordlists, all random outcomes", "Fuzz-like inputs are outside the unit tests; memory errors depend on particular lengths, nestings and number sizes.",
 ["src/parser/parser.c","src/pattern/special.c","src/pattern/segment.c","src/pattern/group.c","src/generate.c","src/wordlist.c","src/markov.c","src/container/stack.c"],
 [("parser","src/parser/parser.c"),("memory ownership","src/pattern/*.c"),("fixed buffers in generation","src/generate.c")], (), ["process status, sanitizer reports, allocation balance"])

prop("C12", "The hash map behaves as a map for every operation sequence",
 "For every sequence of insertions, replacements, removals, lookups and iterations with any keys (UTF-8 or UTF-32 contexts, including colliding ones), the hash map agrees with an ideal map: a lookup finds exactly the latest value stored under an equal key, insertion returns the replaced entry and removal the removed one, the element count is right, and iteration visits each entry exactly once and stops when asked to. Operations on an empty map are well defined.",
 ["histories"], "all operation sequences over colliding and non-colliding keys, across all resizes", "Unit tests insert increasing keys and check them; wrong results need particular collision patterns between two candidate slots, moves, removals and growth.",
 ["src/container/hashmap.c","src/util/siphash.c"], [("two-slot hashing with relocation","src/container/hashmap.c passgen_hashmap_insert")], [("data","slot table","include/passgen/container/hashmap.h")], ["results of insert/remove/lookup/foreach"])

prop("C13", "The stack and array behave as sequences for every operation sequence",
 "For every sequence of pushes, pops and accesses and every element size, the stack and the array agree with an ideal sequence: elements keep their values and order, length is exact, access beyond the end of a stack and popping an empty container yield nothing, and iterating a stack visits all elements in order. No operation touches memory outside the container, and freeing releases everything, at every length including all growth and shrink boundaries.",
 ["histories"], "all push/pop/get histories up to several storage bins, element sizes", "Tests push and then pop; mixed histories around growth boundaries (1,2,4,..,32,33,64,65..) decide reallocation and bin bookkeeping.",
 ["src/container/stack.c","src/container/array.c"], [("binned storage","src/container/stack.c"),("doubling array","src/container/array.c")], [("data/len","bins and length","include/passgen/container/stack.h")], ["results of push/pop/get/top/foreach"])

prop("C14", "Markov generation follows exactly the n-gram statistics of the wordlist",
 "For every list of words and every order, the markov model contains exactly the (order+1)-gram counts of the words padded with start and end markers, independent of insertion order and table growth; at every step, the next character is drawn with probability proportional to its count after the preceding characters. A generated word is therefore a path of such steps that ends at an end marker, each word has exactly the product of its step probabilities, and its reported entropy is the reciprocal of that product.",
 ["inputs","histories"], "all small word lists x orders x all random outcomes; hash-colliding alphabets", "Tests check a few counts; collisions in the code-point-indexed tables, growth while inserting and words shorter than the order need systematic coverage.",
 ["src/markov.c","src/generate.c","src/wordlist.c"], [("tables","src/markov.c passgen_markov_leaf_insert, passgen_markov_node_insert"),("generation","src/markov.c passgen_markov_generate")], [("markov tables","n-gram counts","include/passgen/markov.h")], ["passgen_markov_generate results, generated words"])

prop("C15", "Wordlists contain exactly their lines and words are picked uniformly",
 "For every wordlist file (text without NUL bytes), the loaded words are exactly its non-empty lines in order, unaltered (with or without a final newline, for any number and any length of lines); a wordlist reference in a pattern emits one of these words verbatim, every entry being equally likely, and contributes the number of entries to the entropy. A reference to a name that was not loaded, or to a list without words or with a word that cannot be emitted, makes generation fail cleanly.",
 ["inputs","histories"], "all small file contents, sizes around the allocation thresholds, all random outcomes", "Tests load two fixed files; line-splitting corner cases, list growth beyond 256 words, and long words are not sampled.",
 ["src/wordlist.c","src/generate.c","src/env.c"], [("splitting","src/wordlist.c passgen_wordlist_scan"),("choice","src/wordlist.c passgen_wordlist_random"),("emission","src/generate.c passgen_generate_special_wordlist")], (), ["passgen_wordlist contents, generated output"])

prop("C16", "Filling a buffer is all-or-nothing and never writes out of bounds",
 "For every pattern, random outcome and buffer size, the fill functions (code points, UTF-8, JSON-escaped UTF-8) write the complete output and return its exact length if it fits - including when it fits exactly - and otherwise report zero; they never write a single element at or beyond the given size. The three forms agree: the UTF-8 form is the encoding of the code point form, and the JSON form its JSON-string escaping.",
 ["inputs","histories"], "all patterns x buffer lengths 0..n x character widths", "Tests use comfortably large buffers; the boundary logic depends on how many bytes of the last character fit.",
 ["src/generate.c","src/util/utf8.c"], [("buffer writers","src/generate.c passgen_generate_write_buffer*")], (), ["returned length, buffer contents, bytes beyond the end"])

prop("C17", "JSON output is always valid JSON that decodes to the generated password",
 "For every pattern whose output consists of Unicode scalar values, every amount and every combination of options, the JSON output mode prints one syntactically valid JSON array with exactly one object per requested password, in generation order. Parsing its 'output' strings gives back exactly the generated characters (control characters, quotes, backslashes and non-ASCII characters included), and the 'entropy' member is present exactly when requested.",
 ["inputs","configurations"], "all code points, amounts and option combinations", "Tests cover quotes and a few escapes; control characters and multi-byte boundaries need an exhaustive sweep.",
 ["src/generate.c","src/cli/passgen.c"], [("JSON escaping","src/generate.c passgen_generate_write_buffer_json_utf8"),("JSON framing","src/cli/passgen.c passgen_cli_generate_json")], (), ["standard output of the command-line tool"])

prop("C18", "Command-line options select exactly the documented behaviour",
 "For every combination and order of command-line options (short or long form), the tool prints exactly the requested number of passwords of the given pattern or preset, separated by newlines or NUL bytes and followed by one newline, and nothing else on standard output; with entropy requested it reports one entropy line per password in bits. Invalid use (several patterns, pattern and preset together, unknown option, amount or markov length below one, unknown preset or randomness source, malformed pattern, missing wordlist) produces no password and a non-zero exit status; no pattern at all shows the help; a password that cannot be produced is an error, never silently empty or truncated.",
 ["configurations","inputs"], "all option sequences up to a bounded length", "There is one shell script with a few invocations; interactions between options and error paths are not covered.",
 ["src/cli/passgen.c","src/cli/main.c"], [("option parsing","src/cli/passgen.c passgen_cli_opts_parse"),("output","src/cli/passgen.c passgen_cli_generate_normal")], (), ["stdout, stderr, exit status"])

prop("C19", "Presets and configuration files are applied as documented",
 "Built-in presets generate exactly the documented formats; presets, wordlists and the randomness source defined in the system and user configuration files or by options are all available under their names, with later definitions replacing earlier ones (system file, then user file, then options). For every configuration file content - comments, blank lines, tabs, missing final newline, any size - each well-formed line takes effect exactly once and nothing else does, and reading it never fails with a memory error.",
 ["configurations","inputs"], "all small configuration files over a line alphabet, sizes around the read buffer, option orders", "The configuration parser has no unit tests at all.",
 ["src/cli/passgen.c","src/container/hashmap.c"], [("config parser","src/cli/passgen.c passgen_cli_opts_config_parse"),("preset table","src/cli/passgen.c passgen_cli_opts_init")], (), ["passgen --list output, generated output"])

prop("C20", "The nesting limit bounds generation exactly",
 "For every accepted pattern and every configured depth limit, generation succeeds exactly when the nesting of groups entered on the chosen path (the pattern itself counting as one level) does not exceed the limit, and fails cleanly otherwise; groups that follow each other or repeat do not add up. The parser's own nesting limit, when set, likewise rejects exactly those patterns whose open constructs exceed it.",
 ["inputs","histories"], "all nestings x limits x random outcomes", "Tests try one or two depths; leaks in the depth accounting appear only after repeats, siblings or alternatives.",
 ["src/generate.c","src/parser/parser.c"], [("depth counter","src/generate.c descend/ascend"),("parser limit","src/parser/parser.c passgen_parse_token")], [("depth","remaining levels","src/generate.c")], ["return value of passgen_generate and passgen_parse_token"])

prop("C21", "A failing randomness source never yields predictable output",
 "If the underlying randomness source fails or delivers fewer bytes than requested - an error, end of file, or a short read at any point of any history of requests, in debug and release builds alike - the program stops with an error, or the opening fails; no byte that the source did not deliver is ever handed to a consumer as random. A source that cannot be opened is reported as such.",
 ["fault_sequences"], "all fault points and kinds (error, EOF, short read of each length) in all short request histories, debug and release", "No test injects a fault into the randomness source.",
 ["src/random/random.c","src/random/system.c"], [("length check","src/random/random.c passgen_random_reload, passgen_random_read")], (), ["process status, bytes returned"])

prop("C22", "Same source, same passwords: generation depends only on its inputs",
 "Given the same pattern, wordlists, options and the same byte stream from the randomness source, the generated passwords and entropies are the same, whatever output form is used, whatever was parsed or generated before with other objects, and whether passwords are generated in one batch or one after another from the same source. Generating never modifies the pattern.",
 ["inputs","histories"], "all histories of parse/generate/free operations over a pattern alphabet", "Tests use each object once; hidden state (lazy parsing of wordlists, uninitialised memory, mutated patterns) shows only in longer histories.",
 ["src/generate.c","src/wordlist.c","src/passgen.c","src/pattern/*.c"], [("generation","src/generate.c"),("lazy wordlist parsing","src/wordlist.c passgen_wordlist_parse")], (), ["generated output across histories"])

prop("C23", "Secrets are wiped when sources and objects are released",
 "When a randomness source is closed or freed, its buffered random bytes and its secret state (keys, generator state, derived hashes) no longer remain in the memory it used, including memory it returned to the allocator. This holds for every kind of source and at every point in its use; likewise, every library object (pattern, parser, environment, wordlist, container) passed for release is itself cleared, so that it cannot be used or read afterwards.",
 ["histories","configurations"], "all source kinds x read/seek histories x release points; pattern shapes", "No test looks at released memory.",
 ["src/random/random.c","src/random/deterministic.c","src/random/xorshift.c","src/pattern/*.c","src/container/*.c","src/wordlist.c","src/markov.c"],
 [("PASSGEN_CLEAR","include/passgen/config.h.in"),("close","src/random/random.c passgen_random_close")], (), ["memory contents at the moment of free and after close"])

prop("C24", "The system-call filter allows exactly the intended operations",
 "With the sandbox enabled, the process can open files only for reading, read, seek, stat and close non-standard descriptors, write only to standard output and error, obtain random bytes, exit, and manage private anonymous read-write memory and query the terminal size on standard output; every other system call or argument combination kills the process. The normal operation of the tool (generating from patterns, presets, wordlists, configuration and all randomness sources) stays within the filter.",
 ["inputs","configurations"], "all system call numbers x architecture x argument values over a boundary alphabet", "The filter is only built, never tested.",
 ["src/cli/passgen.c","src/cli/main.c"], [("filter","src/cli/passgen.c passgen_cli_seccomp_init")], (), ["verdict of the loaded BPF program; fate of a child issuing the call"])

prop("C25", "Success is reported only if all output was delivered",
 "For every command line and every state of standard output - a full device, a size limit reached at any byte, a closed or unwritable descriptor, a reader that is gone or leaves, a lost terminal - the tool exits with status zero only if its complete output was written. Otherwise it exits with a non-zero status and a message on standard error (or is ended by the broken pipe), and what was written is the beginning of the complete output. With a slow reader or exactly enough room, everything is delivered.",
 ["fault_sequences","configurations"], "all fault points of standard output within short outputs, around every buffer boundary of long ones, in every output mode", "No test lets output fail; passwords that are lost silently end up as empty or truncated secrets in scripts.",
 ["src/cli/passgen.c","src/cli/main.c"], [("output","src/cli/passgen.c passgen_cli_generate_normal, passgen_cli_generate_json, passgen_cli_presets_list"),("exit status","src/cli/main.c main")], (), ["exit status, bytes delivered, stderr"])

prop("C26", "The message for a malformed pattern points at the error",
 "For every rejected pattern of printable characters, the message on standard error shows the pattern exactly as given, and on the next line a single marker in the column of the character at which the error is found (the first character of the offending token, or the position behind the last character if the pattern is incomplete), however long the pattern is, whatever width its characters have in UTF-8, and wherever it came from (argument, option or configuration).",
 ["inputs"], "all short rejected patterns, all positions around buffer boundaries, all kinds of errors", "No test looks at the message; the column depends on byte and character counts that differ only for non-ASCII patterns.",
 ["src/error.c","src/passgen.c","src/cli/passgen.c"], [("message","src/error.c passgen_error_print"),("position","src/passgen.c passgen_parse")], (), ["standard error of the tool"])

prop("C27", "All memory of the tool is locked while it handles secrets",
 "Where the system permits it, every writable memory mapping of the command-line tool is locked, and newly obtained memory is locked as well, from before the first configuration file, wordlist or randomness source is opened or any random byte is read until the tool exits, for every combination of options, sources, configurations and sizes - so that neither passwords nor random bytes nor passphrases can reach swap space.",
 ["configurations","histories"], "all option sets, sources and configurations; the locks observed at every opened file, every read of randomness and at exit", "No test looks at the locks.",
 ["src/cli/main.c"], [("mlockall","src/cli/main.c main")], (), ["kernel's record of locked mappings"])

prop("C28", "Uses of separate objects never influence each other",
 "Any two uses of the library that share no object but patterns they only generate from (parsing, generation in every form with words and Markov chains, random sources of every kind, tokens, UTF-8, JSON, errors, containers) give, however their steps are interleaved - in two threads, or one inside a callback of the other (characters, reads of a custom source, hash map functions) - exactly the results each gives alone.",
 ["schedules","inputs"], "all schedules of two threads with one switch at every memory access, and with two switches at every pair of accesses that can conflict; every callback of every use", "No test runs two uses at once; a scratch buffer that became static passes them all.",
 ["src/generate.c","src/random","src/parser","src/util","src/container","src/wordlist.c","src/markov.c","src/error.c","src/passgen.c"], [("no shared mutable state","all of src/ except src/cli")], (), ["results of both uses"])

prop("C29", "The version check accepts exactly the compatible versions",
 "For every version of the library and every version a program asks for, the library reports its own version numbers and calls itself compatible exactly when the major versions are equal and its minor and patch version are, in that order of significance, not smaller than those asked for; build and prerelease texts do not matter.",
 ["inputs","configurations"], "all library versions x all 2^24 requested versions", "The test asks for the version itself and its three direct successors only; the library's version in the tests is x.0.0, where most mistakes cannot show.",
 ["src/version.c.in","include/passgen/version.h"], [("comparison","src/version.c.in passgen_version_compatible")], (), ["return values of passgen_version_get and passgen_version_compatible"])

prop("C30", "The keyed hash is SipHash-2-4 for every input",
 "For every input, of any length, content and alignment, and every 16-byte key, passgen_siphash returns 0 and writes exactly the 8 or 16 bytes of SipHash-2-4 of that input, reading nothing but the input and the key.",
 ["inputs"], "all inputs x all keys x both output sizes", "The tests hash words of at most eight characters; the loop over whole blocks runs at most once in them.",
 ["src/util/siphash.c"], [("compression","src/util/siphash.c passgen_siphash")], (), ["output of passgen_siphash"])

prop("C31", "A memory context sends every request to its own functions",
 "After any sequence of changes to a memory context, each request (allocate, allocate cleared, resize, release) calls exactly the function set for it last, with the state set last and the arguments of the request, and returns its result; a request without a function of its own behaves as the C library's, and initialising a context forgets everything that was set.",
 ["histories"], "all histories of changes and requests", "Nothing tests memory contexts.",
 ["src/context.c","include/passgen/context.h"], [("dispatch","src/context.c passgen_malloc")], [("passgen_context","functions and state","include/passgen/context.h")], ["calls of the functions set", "results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    print(len(P))
