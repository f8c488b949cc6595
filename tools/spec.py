"""The properties: one entry per line of properties.jsonl, and how each is claimed.

tools/gen.py writes properties.jsonl and MANIFEST.json from this file.
"""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, note=note, na=na))


# ------------------------------------------------------------------ randomness
P("R01", "Bounded random integers are uniform and always below the bound",
  "Every bounded random draw (8, 16, 32 and 64 bits) returns a value in [0, max), and every value of that range is "
  "equally likely when the source bytes are uniform, for every max >= 1. Unbounded draws return every bit of fresh "
  "source bytes, and a random boolean is true for exactly half of them.",
  ["inputs"], "every bound of every width, every sequence of source bytes",
  "Tests sample a few bounds and histogram a few draws; a modulo bias, a mask that misses a bit for some bounds or an "
  "off-by-one that excludes the last value passes them for the bounds they try.",
  ["src/random/random.c", "include/passgen/random.h"],
  [("mask and rejection loop", "src/random/random.c passgen_random_u8_max .. passgen_random_u64_max")],
  "Abstract interpretation over all bounds, split by the position of the highest bit, in Debug and Release IR: result "
  "bits are distinct bits of one draw, accepted iff below max. Trusts the model that passgen_random_read writes fresh "
  "bytes (R02).")
P("R02", "No random byte is handed out twice or invented",
  "Every byte delivered by a random source object comes from its underlying source, and no source byte is ever "
  "delivered twice, whatever the sequence of read sizes, including reads that straddle the end of the internal buffer "
  "and reads larger than the buffer.",
  ["inputs", "histories"], "every buffer position, every read size, hence every history of reads",
  "The test walks one sequence of sizes over one buffer; reuse shows only for a read that starts with few bytes left.",
  ["src/random/random.c", "include/passgen/random.h"],
  [("buffer and position", "src/random/random.c passgen_random_read"), ("refill", "src/random/random.c passgen_random_reload")],
  "One inductive step over an arbitrary buffer position and request size: output bytes, remaining buffer and new "
  "position are related symbolically; holds for histories by induction on the position invariant.")
P("R03", "A failing or short random source never yields passwords from stale bytes",
  "If the underlying source (operating system, file, or a callback) delivers fewer bytes than asked for, opening or "
  "reading never reports success with the missing bytes left stale or zero, in debug and in release builds. Each built-in "
  "source reports as delivered only bytes it has actually written.",
  ["fault_sequences", "inputs", "configurations"], "every short count at every read, both build types",
  "Tests never make getrandom or fread fall short, and release builds drop the assertions tests rely on.",
  ["src/random/random.c", "src/random/system.c", "src/random/xorshift.c", "src/random/zero.c", "src/random/deterministic.c"],
  [("length check after the callback", "src/random/random.c passgen_random_read, passgen_random_reload")],
  "All short counts are one abstract value; both build configurations are analysed. libc contracts for fread and "
  "getrandom are trusted.")
P("R04", "The random source used is the one that was asked for",
  "Opening without a descriptor uses the operating system's cryptographic generator for every byte and never anything "
  "weaker; a descriptor selects exactly the source it names, whatever path, seed or key follows that fits and can be opened, and everything "
  "else is refused. A file source reads the named path, and a seeded generator never runs from a zero seed.",
  ["inputs"], "every descriptor string",
  "Tests open a handful of descriptors and never look at where the bytes come from.",
  ["src/random/random.c", "src/random/system.c"],
  [("descriptor dispatch", "src/random/random.c passgen_random_open"), ("getrandom", "src/random/system.c")],
  "Every path of the open functions over an arbitrary string is classified by the prefix it established and by the "
  "primitive its callback finally calls.")
P("R05", "No random source descriptor can corrupt memory",
  "Opening a random source stays within the bounds of every object it touches for every descriptor string, of any "
  "length and with any number of separators; what does not fit is refused.",
  ["inputs"], "every descriptor string of any length",
  "Tests use short, well-formed descriptors.",
  ["src/random/random.c", "src/random/deterministic.c"],
  [("field copies", "src/random/random.c passgen_random_open_parse")],
  "Every access of every path is proved in bounds over symbolic field lengths; libc string contracts are trusted.")
P("R06", "The ChaCha20 source is one seekable keystream, independent of read sizes",
  "Byte k of a ChaCha20 source is byte k of the ChaCha20 keystream for its key and nonce however the reads are "
  "partitioned, and after seeking to p the next byte delivered is byte p.",
  ["inputs", "histories"], "every offset, read size and seek position",
  "Tests compare a few aligned reads.",
  ["src/random/deterministic.c"],
  [("block and offset arithmetic", "src/random/deterministic.c passgen_random_chacha20_read"), ("seek", "passgen_random_chacha20_seek")],
  "Inductive step over an arbitrary stream position (block, remainder) and size; the cipher itself is trusted "
  "(passgen_chacha20_djb is a black box that yields keystream blocks).")
P("R07", "Deterministic sources derive their key only from their stated inputs",
  "For chacha20 and chacha20-argon2 descriptors the key, nonce, passphrase, domain and token are exactly the bytes of "
  "the corresponding colon separated fields (zero padded where a fixed size is needed, absent fields empty), and the "
  "Argon2 parameters, salt and output length are the documented ones, so that the same inputs always give the same "
  "passwords and different fields never blend into one another.",
  ["inputs"], "every field content and length, including empty fields",
  "Tests check one or two known answers.",
  ["src/random/random.c", "src/random/deterministic.c"],
  [("field parsing", "src/random/random.c passgen_random_open_parse"), ("argon2 inputs", "src/random/deterministic.c passgen_random_chacha20_argon2_open")],
  "Byte provenance of every argument of the Argon2 and ChaCha20 primitives over symbolic fields. The primitives' "
  "numerics are not verified.")
P("R08", "Random state and derived keys are wiped before memory is released",
  "Closing or freeing a random source overwrites its buffered random bytes, generator state and keys with an overwrite "
  "the compiler cannot remove before the memory is released, releases it exactly once, and no derived key or keystream "
  "block stays behind on the stack.",
  ["inputs", "histories"], "every source kind, every path",
  "Nothing observable through the API changes when a wipe is dropped.",
  ["src/random/random.c", "src/random/deterministic.c", "src/random/xorshift.c", "src/monocypher.c"],
  [("PASSGEN_CLEAR", "include/passgen/config.h.in"), ("passgen_wipe", "src/monocypher.c")],
  "Content of every object at the moment it is released or its function returns, over all bytes.")

# ------------------------------------------------------------------ generation
P("G01", "Reported entropy is exactly the product of the choices made",
  "The entropy passgen_generate reports is the product, over every random choice made while generating, of the number "
  "of equally likely outcomes of that choice (for a weighted alternative: the total weight divided by the weight of the "
  "alternative taken; for an optional item: 2; for a repeat count: max - min + 1; for a set: its number of code points; "
  "for a word: the number of words). Asking for the entropy never changes what is generated.",
  ["inputs", "histories"], "every pattern structure: any number of segments, items, ranges, words, repeats, nesting",
  "Tests compare the entropy of a dozen patterns whose weights are all 1 and counts are tiny; a forgotten or doubled factor "
  "in a loop, or a weight that is ignored, needs a pattern that combines the two.",
  ["src/generate.c", "src/markov.c", "src/wordlist.c"],
  [("entropy accumulation", "src/generate.c passgen_generate_* functions")],
  "Ghost product of draw bounds kept next to the program's entropy through loop fixpoints; floating point products are "
  "compared as exact multisets of factors (rounding is out of scope). Patterns are symbolic up to one level of nested "
  "groups (two in the thorough tier), deeper nesting follows by the recursion.")
P("G02", "Generation stops at the first failure and reports it",
  "If the output callback, a word list lookup, a preset, a nested group or the depth limit fails while generating, "
  "passgen_generate returns an error, emits nothing more and draws no more randomness; success is only returned when "
  "everything was emitted. A group without alternatives to choose from is an error.",
  ["fault_sequences", "inputs"], "every failing step of every pattern structure",
  "Tests use callbacks that succeed; an ignored return value is invisible until a buffer runs full in the middle of a loop.",
  ["src/generate.c"], [("error propagation", "src/generate.c passgen_generate_group .. passgen_generate_item")],
  "Failure typestate: every callee result may be an error at every call; any later emission, draw or success is a violation.")
P("G03", "Output buffers receive exactly the generated code points, encoded",
  "passgen_generate_fill_unicode, _utf8 and _json_utf8 write the generated code points one after the other in their "
  "encoding (UTF-32, UTF-8, UTF-8 with JSON escapes for quote, backslash and all control characters), never write "
  "outside the buffer, return the number of units written, accept a code point exactly if it has an encoding that fits, "
  "and return 0 if generation fails.",
  ["inputs"], "every sequence of code points, every buffer length",
  "Tests fill comfortable buffers with ASCII; the room check matters only for multi-byte code points close to the end of the buffer.",
  ["src/generate.c", "src/util/utf8.c"],
  [("fill callbacks", "src/generate.c passgen_generate_write_buffer, _write_buffer_utf8, _write_buffer_json_utf8")],
  "All 32-bit values in ranges by encoding, all positions and lengths; bit layout of the bytes written is compared with the encoding.")
P("G04", "Every alternative is chosen with exactly its share of the outcomes",
  "A set emits its k-th code point for the k-th outcome of a uniform draw over its size; a group takes the alternative "
  "whose share of the multiplier sum contains the draw (each alternative for exactly as many outcomes as its weight, none "
  "twice, none skipped); a word list uses the drawn word, drawn uniformly from all words.",
  ["inputs"], "any number of ranges, alternatives and weights",
  "Tests count letters of two-letter sets; an off-by-one between shares shifts one outcome in thousands.",
  ["src/generate.c", "src/wordlist.c"],
  [("segment choice", "src/generate.c passgen_generate_group, group_get_segment"), ("set choice", "src/generate.c passgen_generate_set")],
  "Loop invariants relate the draw to symbolic prefix sums of the multipliers and to the cumulative choices list. That the "
  "lists are cumulative is the parser's side (P-properties).")
P("G05", "A pattern generates its items in order, as often as it says",
  "Literals are emitted in order and completely, every item is emitted min + d times where d is drawn uniformly from "
  "max - min + 1 values (no draw if min equals max), optional items are emitted or skipped by one fair draw, items of a "
  "segment are emitted in order, an empty set emits nothing.",
  ["inputs"], "every count, minimum, maximum and number of items",
  "Tests generate a few short patterns.",
  ["src/generate.c"], [("items, repeats, literals", "src/generate.c passgen_generate_item, passgen_generate_segment, passgen_generate_literal")],
  "Position of every emitted letter is tracked symbolically through the loops.")
P("G06", "Generation stays in bounds for every pattern and word",
  "No access of passgen_generate leaves the pattern, word list, markov chain or stack buffer it belongs to: words longer "
  "than the working buffer, words that are not UTF-8 and special items that cannot be resolved are refused, NULL is never dereferenced.",
  ["inputs"], "every word length, special name and literal length",
  "Tests use short ASCII words.",
  ["src/generate.c", "src/wordlist.c", "src/markov.c"], [("word buffers", "src/generate.c passgen_generate_special_*")],
  "Every access of every path is proved in bounds of its object over symbolic sizes; passgen_markov_generate is replaced by a "
  "contract that is checked separately.")
P("G07", "The depth limit is enforced exactly",
  "Generation of a pattern whose groups nest d deep succeeds (as far as depth is concerned) if and only if the depth limit "
  "of the environment is at least d; width, repeats and number of items never count as depth.",
  ["inputs"], "every limit value; nesting of 1 to 4 groups, any width",
  "Tests use one limit and one pattern.",
  ["src/generate.c"], [("depth parameter", "src/generate.c passgen_generate_group")],
  "The limit is symbolic; patterns with up to three nested groups of any width.")
P("G08", "Generating leaves the pattern and environment untouched",
  "passgen_generate never writes to the pattern, to the environment's word lists and presets or to static storage, on success or on failure, so that "
  "a parsed pattern can be generated from any number of times, each time with the same distribution.",
  ["histories"], "every path of every pattern structure",
  "Tests generate from a pattern once or a few times and would not notice cached state.",
  ["src/generate.c"], [("const patterns", "src/generate.c")],
  "Effect analysis: every store of every path is attributed to its owning object. Word list loading and lookups in the hashmap are contracts.")

P("G09", "Words are emitted whole, and chains start at the start of a word",
  "A word special emits every letter of the word the list's draw returned, all of it, in order and unchanged, or fails; a markov special "
  "draws the letters of a word one after the other from the chain of the named list, each given exactly the letters before it and the first "
  "ones given the start of a word, until the end of the word is drawn, and emits all of them in order.",
  ["inputs", "histories"], "every word of any length; chains of length 1, 2, 3, 6 and 9 (thorough: ten lengths up to 31), words up to the size of the buffer",
  "Tests use a word list with some short words and look at one or two results, and stack memory that happens to be zero hides a wrong start.",
  ["src/generate.c"], [("word lists and markov chains in patterns", "src/generate.c passgen_generate_special_wordlist, passgen_generate_special_markov")],
  "Root is passgen_generate with one special item; the list is known by contract (lookup, draw of a word, decoding, draw of a letter), so every word "
  "and chain is covered. The arguments of each draw are compared with the history of draws. Letters are arbitrary in two positions and above 255 elsewhere.")

# ------------------------------------------------------------------ encodings
P("U01", "UTF-8 encoding is exact for every code point and never overruns",
  "passgen_utf8_encode_codepoint writes exactly the UTF-8 bytes of every scalar value and refuses surrogates and values above "
  "U+10FFFF; passgen_utf8_encode encodes code points in order, stays inside both buffers for every length, leaves the two "
  "positions after what was converted and reports success only if everything was.",
  ["inputs"], "all 2^32 values; all lengths and start positions",
  "Tests try a few code points and large buffers.",
  ["src/util/utf8.c"], [("encoder", "src/util/utf8.c passgen_utf8_encode_codepoint, passgen_utf8_encode")],
  "Bit-provenance of every output byte over every range of scalar values; inductive step for the buffer loop.")
P("U02", "UTF-8 decoding accepts exactly well-formed UTF-8",
  "passgen_utf8_decode accepts exactly the well-formed sequences of the Unicode standard (no overlong forms, surrogates, values "
  "above U+10FFFF, stray or missing continuation bytes), stores the code point and width each sequence encodes, in order and in "
  "bounds, and reports success, full output or an error truthfully for every input and output length. The two positions are left after "
  "what was decoded, on errors before the byte at fault.",
  ["inputs"], "every byte string of any length, any output length, with and without widths",
  "Tests decode some strings; the table has 364 entries of which each decides some sequence.",
  ["src/util/utf8.c"], [("decoder tables and loop", "src/util/utf8.c utf8d, passgen_utf8_decode")],
  "Product of the decoder with the standard's automaton through the loop fixpoint: every state, every byte class, code point bits compared.")


# ------------------------------------------------------------------ parsing
P("P01", "Every pattern string is parsed into the structure its syntax denotes",
  "For every sequence of tokens the parser builds exactly the documented structure: text characters in order, groups, alternatives "
  "separated by '|', sets, special items of the named kind; '?' and '{n,m}' apply to exactly the item before them, only to the last "
  "character of a run of text; escaped syntax characters are text; invalid tokens and unfinished patterns are refused; an empty "
  "group generates nothing. A nesting limit is respected.",
  ["inputs", "histories"], "every token in every state the parser can be in, hence every pattern of any length and nesting",
  "Tests parse some dozens of patterns; a token handled wrongly after one kind of item, at a full literal, after an empty group or in "
  "a second alternative passes them.",
  ["src/parser/parser.c", "src/pattern/group.c", "src/pattern/segment.c", "src/pattern/literal.c"],
  [("state machine", "src/parser/parser.c passgen_parse_token, passgen_parse_group"),
   ("pattern construction", "src/pattern/segment.c, src/pattern/group.c, src/pattern/literal.c"),
   ("completion", "src/parser/parser.c passgen_parser_init, passgen_parse_finish")],
  "One symbolic step of the parser from every state satisfying its representation invariant, for a partition of all tokens, in Debug and "
  "Release IR; the invariant is shown to hold again. Containers and the release functions are used by contract.")
P("P02", "Escapes and code points become exactly the tokens they denote",
  "The tokenizer turns every code point sequence into the tokens it denotes: plain code points stand for themselves, \\a \\b \\e \\f \\n "
  "\\r \\t \\v and a doubled backslash for their control character, \\u{h} with one to six hex digits for that code point, any other "
  "escaped code point for itself marked as escaped. Escapes that are malformed, too long or beyond U+10FFFF are refused, and token "
  "positions are exact.",
  ["inputs", "histories"], "every code point in every tokenizer state, every byte width",
  "Tests try a handful of escapes; a wrong entry of the escape table, a digit decoded wrongly or a missed bound passes them.",
  ["src/parser/token.c", "include/passgen/parser/token.h"],
  [("tokenizer automaton", "src/parser/token.c passgen_token_parse")],
  "Exhaustive symbolic transition table of passgen_token_parse: every state, payload length and class of code points, with frame conditions. "
  "An escape without digits is not judged.")
P("P03", "A set holds exactly the code points and ranges that are listed",
  "A parsed set contains one range per listed code point or x-y range, in order and inclusive, and nothing else; a reversed range is "
  "refused; a dash right after the opening bracket and an escaped dash or closing bracket are members; when the set ends, its list of "
  "choices has one entry per range, each the number of code points up to and including that range.",
  ["inputs", "histories"], "every token in every state of a set, sets of any number of ranges",
  "Tests parse sets of a few ranges; the list of choices of larger sets and unusual members are not compared with anything.",
  ["src/parser/parser.c", "src/pattern/set.c"],
  [("set states", "src/parser/parser.c passgen_parse_set, passgen_parse_set_range"), ("ranges", "src/pattern/set.c passgen_pattern_set_range_append")],
  "Symbolic steps as for P01; every entry written to the list of choices is compared with a ghost prefix sum through the loop fixpoint. "
  "A dash after a completed range or before the closing bracket and other escaped members are not judged.")
P("P04", "No pattern string makes the parser touch memory it does not own",
  "Whatever the pattern, the parser and tokenizer only access live memory inside its bounds: pointers the parser keeps into the pattern "
  "under construction stay valid although its containers move when they grow or shrink, no NULL pointer is followed, and the name of "
  "a special item grows within its buffer.",
  ["inputs", "histories"], "every token in every state the parser can be in; names of any length",
  "A container only moves at certain sizes, so a pointer kept across growth is harmless in most tests; overruns need long names or runs.",
  ["src/parser/parser.c", "src/pattern/special.c", "src/pattern/literal.c"],
  [("kept pointers", "src/parser/parser.c passgen_parser_state"), ("name buffer", "src/pattern/special.c passgen_pattern_special_push"),
   ("literal buffer", "src/pattern/literal.c passgen_pattern_literal_append")],
  "Ownership generations: every push or pop invalidates all earlier pointers into that container; each access of the symbolic steps is "
  "checked for bounds, generation and NULL, and the pointers left in the parser are of the current generation.")
P("P05", "Repetitions and multipliers have exactly the value that is written",
  "A repetition {n}, {n,m} or multiplier {n} has exactly the decimal value written, for any number of digits; values that do not fit are "
  "refused, as is a maximum below the minimum. The multiplier sum of a group always equals the sum of the multipliers of its "
  "alternatives, an alternative without multiplier counting once.",
  ["inputs", "histories"], "every digit string, every state of the parser, any number of alternatives",
  "Tests use one- and two-digit numbers; wrap-around, lost digits and sums that go wrong in the second alternative do not show.",
  ["src/parser/parser.c", "src/pattern/group.c"],
  [("numbers", "src/parser/parser.c passgen_parse_multiplier, passgen_parse_repeat, passgen_parse_repeat_range"),
   ("sum", "src/pattern/group.c passgen_pattern_group_segment_append, passgen_pattern_group_finish")],
  "Symbolic steps as for P01 over all 64-bit values, split where the arithmetic would overflow; the sum is an invariant of every step.")
P("P06", "All of the pattern is parsed, in order, and every failure is reported",
  "passgen_parse hands every code point of the pattern exactly once, in order and with its width to the tokenizer and every completed "
  "token to the parser, for patterns of any length; it succeeds exactly if decoding, every token and the final completeness check "
  "succeed, and otherwise fills in the error with the position of the token at fault, or else of how far the pattern was decoded, stops and "
  "releases its parser. passgen_parser_unicode does the same for code points.",
  ["inputs", "faults"], "patterns of any length (any number of decoding chunks), failure of every step",
  "Test patterns fit one decoding chunk of 256 code points; what happens at and after the chunk boundary is not tested.",
  ["src/passgen.c", "src/parser/parser.c"],
  [("driver loop", "src/passgen.c passgen_parse"), ("code point driver", "src/parser/parser.c passgen_parser_unicode")],
  "Abstract interpretation of both drivers with ghost counters for decoded, fed and parsed code points and a failure typestate; positions "
  "also with patterns of exactly up to two decoding chunks, which are followed without widening; the "
  "decoder (U02), tokenizer (P02) and parser (P01) are used by contract.")
P("S01", "A stack holds exactly what was pushed and not popped, at stable places",
  "After any history of pushes and pops a stack holds exactly the elements that were pushed and not popped, in order: get finds each "
  "of them and NULL beyond, top is the last, foreach visits each once in order, push returns the place of the new element, pop hands "
  "back the last one. Nothing is accessed out of bounds and freeing or emptying the stack releases all of its memory exactly once.",
  ["inputs", "histories"], "every history of pushes and pops up to a length limit (140, thorough 600; runs to 8300 and 66000), several element sizes",
  "Bins are added, grown, shrunk and released at certain lengths only; tests follow a handful of histories and cannot see overruns or leaks.",
  ["src/container/stack.c"],
  [("growth", "src/container/stack.c passgen_stack_push"), ("shrinking", "src/container/stack.c passgen_stack_pop"),
   ("iteration", "src/container/stack.c passgen_stack_foreach")],
  "Exploration of the abstract heap shapes (lengths and allocations exact, element bytes opaque): push and pop are analysed from every "
  "reachable shape below the limit, so the result holds for all histories below it. Allocations are assumed to succeed.")
P("H01", "A hash map holds the last value inserted for every key, and nothing else",
  "In a map satisfying its invariant (every entry in one of the two positions of its key, keys distinct) lookup finds the entry of a "
  "key exactly if there is one, insert replaces it or adds one and returns what was replaced, remove removes it and returns it, all "
  "other entries stay findable with their values, len is the number of entries, growing keeps all entries, foreach visits each entry "
  "once and stops at a nonzero result, and freeing releases the slots once.",
  ["inputs", "histories"], "every map satisfying the invariant, of any capacity, contents and hash function; every key",
  "The errors show when a key sits in its second position, its first being free again, or when two keys collide twice: rare in tests.",
  ["src/container/hashmap.c"],
  [("insertion", "src/container/hashmap.c passgen_hashmap_insert, passgen_hashmap_move"), ("growth", "src/container/hashmap.c passgen_hashmap_realloc"),
   ("removal", "src/container/hashmap.c passgen_hashmap_remove")],
  "One operation from an arbitrary map; slots are materialised when accessed, hash values and key equality are uninterpreted functions; "
  "the loops over all slots use a witness slot. That growing eventually makes room is not decided (it depends on the hash values).")
P("W01", "A word list holds exactly the lines of its file and releases all it owns",
  "Parsing a word list reads the whole file from its start and yields, in order and without gaps or duplicates, exactly its non-empty "
  "lines (up to a NUL byte), however many there are; count and size are theirs. When the file cannot be read completely parsing fails, "
  "leaving the list unparsed and holding nothing but the file. Accesses stay within the memory allocated. Releasing a list, parsed or not, "
  "releases its memory and markov chain once, and the file is closed exactly once if the list owns it and never otherwise.",
  ["inputs", "faults"], "files of any length and number of lines, failing ftell and short reads, owned and foreign files; Debug and Release",
  "Tests load a few small lists; growth of the array, short reads and ownership of the file are not tested.",
  ["src/wordlist.c"],
  [("parsing", "src/wordlist.c passgen_wordlist_parse"), ("release", "src/wordlist.c passgen_wordlist_free")],
  "Abstract interpretation from initialisation to release: the file and strtok_r are modelled, the array of words is one block whose "
  "capacity and number of words stored are ghost counters in the invariant of the scanning loop, which is inferred.")
P("W02", "Words are chosen uniformly and each word trains the markov chain once",
  "passgen_wordlist_random draws one number below the number of words and returns the word it denotes, so that all are equally likely; "
  "for a list that is not parsed or has no words it returns NULL and draws nothing. passgen_wordlist_parse_markov decodes every word, "
  "whole up to 256 code points, and adds it to the chain of the list exactly once, in order, with weight 1 and all its code points. "
  "passgen_wordlist_load does this exactly if parsing succeeded. The count is that of the words.",
  ["inputs"], "any number and lengths of words, any draws; Debug and Release", "The choice is only tested for a small list and chains for a few words.",
  ["src/wordlist.c"],
  [("choice", "src/wordlist.c passgen_wordlist_random"), ("training", "src/wordlist.c passgen_wordlist_parse_markov"),
   ("loading", "src/wordlist.c passgen_wordlist_load")],
  "Abstract interpretation with decoding (U01), drawing (R02) and the chain replaced by their contracts; which word is handled in which "
  "iteration follows from the inferred loop invariant.")
P("M01", "Markov tables count every code point they are given, whatever the collisions",
  "Inserting a code point into a leaf adds exactly the weight to the count of that code point and to the total and changes nothing else; "
  "inserting into a node reserves the entry of that code point and changes nothing else. When the slot belongs to another code point the "
  "table is replaced by a larger one (never overwritten), which takes over every entry with its count or child, and the old one is "
  "released once. New tables are empty, of the capacity the sizes list says, and big enough for it; no access leaves a table. "
  "Asking for the count of a code point gives the count kept for that code point, and 0 when another has its slot.",
  ["inputs", "histories"], "any code points, counts and weights, collisions; every capacity of the sizes list; Debug and Release",
  "Collisions that force a table to grow depend on code points congruent modulo a prime; tests insert a handful.",
  ["src/markov.c"],
  [("insertion", "src/markov.c passgen_markov_leaf_insert, passgen_markov_node_insert"),
   ("growth", "src/markov.c passgen_markov_leaf_realloc, passgen_markov_node_realloc"),
   ("capacities", "src/markov.c passgen_markov_leaf_new, passgen_markov_node_new")],
  "Abstract interpretation: insertion for a symbolic capacity 2h+1 with growth assumed, then growth for every capacity of the list with "
  "an arbitrary slot followed as witness through the copying loop.")
P("M02", "A chain learns every window of a word, from start to end, exactly once",
  "Adding a word of n code points to a chain of length l inserts exactly the n + 1 sequences of l + 1 code points of the word with l zero "
  "code points before it and one after it, each with the weight given, and counts them. Inserting a sequence follows or creates one table "
  "per position from the root, counts the last code point in the leaf they lead to with that weight, and keeps every table reachable "
  "from its parent when it is created or moves. Accesses stay within the word and the buffers.",
  ["inputs", "histories"], "words of any content and length below 2^30, any chain length (windows) and lengths 1 to 5 (tables); Debug and Release",
  "Words shorter than, as long as and longer than the chain length take different paths; a table that moves shows only after collisions.",
  ["src/markov.c"],
  [("windows", "src/markov.c passgen_markov_add, passgen_markov_insert"), ("walk", "src/markov.c passgen_markov_node_insert_word")],
  "Abstract interpretation: passgen_markov_add for a symbolic word and chain length, the content of an arbitrary position of every "
  "inserted sequence compared with the definition; the walk with tables of any capacity that may have children and may move.")
P("M03", "A chain chooses code points in proportion to how often they followed",
  "passgen_markov_generate follows the chain length many given code points from the root, each in the table reached so far, and changes "
  "nothing. It draws exactly one number, below the total of the leaf reached, and returns a code point of the leaf so that each is chosen "
  "for exactly as many numbers as its count. The entropy, if asked for, is multiplied by the total over that count. "
  "passgen_markov_leaf_count returns the count of a code point, or 0 for one that was not counted.",
  ["inputs"], "chain lengths 1 to 3 with tables of any capacity; leaves of 3 to 37 slots with any counts in up to four of them; any draw",
  "The unit tests fix the chain and the source of randomness; bias at the boundary between two code points is invisible to them.",
  ["src/markov.c"],
  [("choice", "src/markov.c passgen_markov_generate"), ("lookup", "src/markov.c passgen_markov_leaf_count")],
  "Abstract interpretation with a symbolic draw and symbolic counts: on every path the constraints must confine the draw to an interval of "
  "the count of the code point returned, all in one order; the entropy is compared as a product of factors.")
P("M04", "Releasing a chain releases every table of it, once",
  "A chain is initialised with its length, no sequences and an empty root. Releasing it releases the root and every node and leaf that is "
  "in it, whichever slots are used, each exactly once and none used afterwards, and nothing else.",
  ["inputs", "histories"], "chain lengths 1 to 4; roots of 3 to 17 slots of which up to four, and one or two further down, may be used",
  "Tests release chains but do not look for leaks or memory used after release.",
  ["src/markov.c"],
  [("release", "src/markov.c passgen_markov_free, passgen_markov_node_free, passgen_markov_leaf_free"), ("initialisation", "src/markov.c passgen_markov_init")],
  "Abstract interpretation of the recursion over a tree whose slots may or may not be used; lifetimes are tracked per table.")
P("L01", "Releasing patterns, environments and parsers releases all, once",
  "Releasing a pattern releases every list of segments, items and ranges in it, the list of choices of every set and the name of every special "
  "item, at any depth. Releasing an environment (or the options of the tool) releases its random source, both maps and every word list with "
  "its contents, memory and name. Releasing a parser releases its states and hands back the pattern. Everything is released exactly once, nothing is used "
  "afterwards, and the objects themselves, which belong to the caller, are not released.",
  ["inputs", "histories"], "every pattern (any item of any segment), every environment and parser; Debug and Release",
  "Tests release what they build but do not notice leaks, nor double releases that do not crash.",
  ["src/pattern/pattern.c", "src/pattern/group.c", "src/pattern/segment.c", "src/pattern/segment_item.c", "src/pattern/set.c", "src/pattern/special.c",
   "src/env.c", "src/parser/parser.c", "src/cli/passgen.c"],
  [("patterns", "src/pattern passgen_pattern_free, passgen_pattern_group_free"), ("environments", "src/env.c passgen_env_free"),
   ("parsers", "src/parser/parser.c passgen_parser_free"), ("options", "src/cli/passgen.c passgen_cli_opts_free")],
  "Abstract interpretation with one arbitrary item of one arbitrary segment as the witness: an ownership typestate per thing it owns; the release "
  "of a nested group is the claim itself for a smaller pattern; stacks and maps are modelled by contract (S01, H01).")
P("L02", "Parsing loses nothing it allocated, and all of it can be released",
  "Every step of the parser releases what it drops from the pattern (empty groups, alternatives with multiplier zero) before it drops it, "
  "forgets no list or buffer that was not released, and what it allocates belongs to the pattern. What it adds is initialised as far as releasing "
  "it requires, also when the step fails, so that the pattern can be released after every outcome of parsing.",
  ["inputs", "histories"], "every step from every state of the parser; every growth of a name; Debug and Release",
  "Tests parse a few patterns that drop something and do not look for leaks.",
  ["src/parser/parser.c", "src/pattern/segment.c", "src/pattern/special.c", "src/pattern/set.c", "src/pattern/group.c"],
  [("steps", "src/parser/parser.c passgen_parse_token"), ("names", "src/pattern/special.c passgen_pattern_special_push")],
  "The steps of P01 with an ownership rule: elements popped or containers re-initialised own nothing, blocks allocated by a step are referenced "
  "by the structure at its end, owning fields of new elements are not uninitialised.")
P("H02", "Keys of a map are equal exactly if they are the same text",
  "For both key contexts (UTF-8 and UTF-32), two keys of any length are equal exactly if they have the same code units up to the "
  "terminator, and nothing beyond a terminator is read. The hash of a key depends on nothing but the key (the same text always has the same hash): "
  "it is what passgen_siphash computes of the key from its start (all bytes of a UTF-8 key, as many bytes of a UTF-32 key as it has code points), under a constant "
  "16-byte key that differs between the two positions. passgen_siphash reads every byte of its input and the 16 bytes of its key, nothing else, "
  "and writes exactly the requested 8 or 16 bytes.",
  ["inputs"], "every pair of keys of any length; every input length (all remainders); both output lengths; Debug and Release",
  "Tests use a few short ASCII keys; comparisons that stop early, or hashes that read past a key or skip its tail, agree on those.",
  ["src/container/hashmap.c", "src/container/hashmap.h", "src/util/siphash.c", "include/passgen/container/hashmap.h"],
  [("contexts", "src/container/hashmap.c passgen_hashmap_context_utf8, passgen_hashmap_context_utf32"), ("hash", "passgen_siphash")],
  "Abstract interpretation of the functions of each context on symbolic texts: comparisons leave facts about where texts agree, from which the "
  "verdict on equality must follow; hashing is followed to the call of passgen_siphash and its arguments judged; passgen_siphash is run with "
  "recorded reads and writes for each remainder of the length modulo eight.")
P("A01", "An array keeps what was pushed, in order, and releases only itself",
  "For arrays of any length and capacity: pushing stores the pointer after the last entry and keeps all earlier ones, getting an entry below the "
  "number of entries returns it (no assertion fails), popping returns the last one, NULL if there is none, and leaves the others. The memory of an "
  "array always has room for its capacity, which is never below its number of entries. Growing loses no memory; releasing an array releases its memory "
  "once, neither entries nor the array itself, and leaves it empty.",
  ["inputs", "histories"], "every length and capacity below 2^40, every position; Debug and Release",
  "Tests push a few entries; growing at particular lengths, or entries beyond what was tried, are not seen.",
  ["src/container/array.c", "include/passgen/container/array.h"],
  [("array", "src/container/array.c passgen_array_push, _get, _pop, _realloc, _init, _free")],
  "Abstract interpretation of single operations on an arbitrary array: a witness entry at an arbitrary place, symbolic length and capacity.")
P("E01", "An error keeps what it reports, and is printed pointing at its position",
  "An error starts with the given message and nothing else; setting its source or offsets changes just those, all causes added are kept in order, and "
  "releasing it releases the list of causes once and nothing it does not own. Printing an error writes to standard error its message, its location if "
  "it has one, and the pattern, each once and complete, and below the pattern a single marker in the column of the byte given by its offset "
  "(counted from one; zero marks the start).",
  ["inputs"], "every message, location, pattern and offset; up to six causes; Debug and Release",
  "There are no tests of errors; markers go wrong at particular offsets.",
  ["src/error.c", "src/container/array.c", "include/passgen/error.h"],
  [("error", "src/error.c passgen_error_init_raw, _source_set, _offset_set, _cause_add, _free"), ("printing", "src/error.c passgen_error_print")],
  "Abstract interpretation; printing as a token stream in which the visible column is a ghost counter related to the offset by loop invariants.")
P("K01", "Allocation through a context uses the functions of the context, as given",
  "A new context has no functions. Each setter stores exactly the function or state given, whatever was set before, and changes nothing else. "
  "passgen_malloc, _calloc, _realloc and _free call the function set for them once, with the state of the context and their arguments unchanged, "
  "and return what it returns; if none is set they do the same with the function of the C library. Sizes and NULL pointers are not special.",
  ["inputs", "histories"], "every combination of functions set, any state, sizes and pointers; Debug and Release",
  "There are no tests of allocation contexts.",
  ["src/context.c", "include/passgen/context.h"],
  [("context", "src/context.c passgen_context_set_*, passgen_malloc, passgen_calloc, passgen_realloc, passgen_free")],
  "Abstract interpretation for all sixteen combinations with symbolic arguments; calls are recorded and compared to what was asked.")
P("V01", "The library knows its version and which versions it is compatible with",
  "passgen_version_get reports the version of the project. passgen_version_compatible holds exactly if the major version is the same and minor and "
  "patch version together are not newer than the library's (a newer minor version of the library is compatible whatever the patch version). "
  "passgen_is_debug tells whether the library was built with debug assertions.",
  ["inputs"], "every requested version; every version of the library where the code obtains it by passgen_version_get; Debug and Release",
  "The comparison is not tested; at version 1.0.0 most of it cannot be exercised.",
  ["src/version.c.in", "include/passgen/version.h"],
  [("version", "src/version.c.in passgen_version_compatible, passgen_version_get, passgen_is_debug")],
  "Abstract interpretation with symbolic requested and current versions; every verdict is compared to the lexicographic order.")
P("T01", "The library keeps no state: calls on separate objects do not affect each other",
  "No function of the library (everything but the tool) writes to an object with static or thread storage, of its own or of the C library: it calls nothing "
  "that keeps hidden state (strtok, rand, setlocale, ...). What it computes depends on its arguments and the sources it is given only: not on time, "
  "process or environment variables, nor on the addresses of objects. So calls on separate objects can run at the same time, in any order and after any "
  "earlier call, successful or not, with the same results.",
  ["schedules", "histories", "inputs"], "every function of the library, every path; Debug and Release",
  "Tests run single-threaded and each in a fresh process; state that survives a call, or is shared, does not show.",
  ["src/passgen.c", "src/generate.c", "src/env.c", "src/wordlist.c", "src/markov.c", "src/error.c", "src/random/random.c", "src/container/hashmap.c", "src/util/utf8.c"],
  [("library", "src/passgen.c, src/generate.c, src/env.c, src/wordlist.c, src/random and everything else outside src/cli")],
  "Whole-program dataflow in SSA form: where addresses of static objects go (through parameters as well) and whether anything is written through them; "
  "every call out of the library classified; flow of numbers made from addresses.")
P("F01", "Formats are constants that match their arguments, never text from outside",
  "Every call of printf, fprintf, snprintf and their like, in library and tool, has a format that is one of a known set of constants on every path; it has an "
  "argument of the right type for each of its conversions and none that writes to memory. Patterns, words, names of presets, paths and messages are never used as formats.",
  ["inputs"], "every call, every format that can reach it; Debug and Release",
  "Tests print little; a format taken from input or a wrong conversion works until the text contains a percent sign or the value is large.",
  ["src/error.c", "src/assert.c", "src/random/random.c", "src/cli/passgen.c", "src/cli/main.c"],
  [("formats", "src/error.c passgen_error_print; src/cli/passgen.c; src/assert.c; src/random/random.c")],
  "Constant propagation to format arguments through phis, tables, parameters and return values; conversions are parsed and compared with the types of the arguments.")
P("X01", "The tool prints the passwords it generated, all of them, well-formed",
  "passgen prints exactly as many passwords as asked for, each exactly as generated and in order. Plain output separates them by "
  "newlines (-z: NUL bytes) and ends with a newline; -j prints a JSON array with one object per password, with the escaped password "
  "and, with -e, its entropy. With -e the entropy printed is the base-2 logarithm of what the generator reports for that password. An "
  "invalid pattern is reported, nothing is printed and the status is not zero.",
  ["inputs"], "every pattern, any amount, all output modes; Debug and Release",
  "There are no unit tests of the command-line tool; separators and buffers go wrong at particular amounts and lengths.",
  ["src/cli/passgen.c"],
  [("output", "src/cli/passgen.c passgen_cli_generate_normal, passgen_cli_generate_json"), ("status", "src/cli/passgen.c passgen_cli_run")],
  "Abstract interpretation from passgen_cli_run in every mode: all stdio output becomes a token stream judged by an automaton of the "
  "format; counters relate passwords generated and printed to the amount; buffers are checked for bounds and release.")
P("X02", "Every option has its documented effect, and bad ones their status",
  "For any arguments, each option (short or long) has the effect documented for it, the last one counting when repeated: amount, null, "
  "json, entropy, preset, random, wordlist NAME:PATH and define-preset NAME:PATTERN (split at the first colon), markov-length for the "
  "wordlists that follow, master, domain and token. Illegal amounts and markov lengths, unknown options and presets, several patterns "
  "and unusable randomness sources end with their documented status; without a pattern, help is shown. Randomness given explicitly "
  "wins over a master passphrase, which wins over the system's.",
  ["inputs"], "every argument text; all sequences of up to two options and two patterns; Debug and Release",
  "There are no unit tests of option parsing; effects that depend on the order or repetition of options are not tried.",
  ["src/cli/passgen.c"],
  [("options", "src/cli/passgen.c passgen_cli_opts_parse"), ("wordlists", "src/cli/passgen.c passgen_cli_opts_wordlist"),
   ("presets", "src/cli/passgen.c passgen_cli_opts_preset")],
  "Abstract interpretation of initialisation and parsing with symbolic arguments: getopt_long is modelled from the option tables found "
  "in the program, each path's calls are logged and replayed against the documented meaning of its options.")
P("X03", "Built-in presets have the shape their name promises, and -l lists presets",
  "The built-in presets apple1, apple2, firefox, edge, uuid and proquint16 to proquint128 are defined with patterns whose outputs have "
  "exactly the documented form at every position (uuid: RFC 4122 version 4 and variant; proquintN: N/16 dash-separated five-letter "
  "words of the proquint alphabet), every character of a position being equally likely. -l prints one line 'preset NAME PATTERN' for "
  "every preset.",
  ["inputs"], "all built-in presets, all positions and characters of their outputs; listing of any preset; Debug and Release",
  "No test mentions the presets; a character too many or missing shows in one output of many.",
  ["src/cli/passgen.c"],
  [("definitions", "src/cli/passgen.c passgen_cli_opts_init"), ("listing", "src/cli/passgen.c passgen_cli_presets_list")],
  "Constant propagation through initialisation yields the table of presets; each pattern is expanded to the sequence of character sets "
  "it stands for and compared with the documented one. The listing callback is analysed with an arbitrary entry.")
P("X04", "Configuration files are found, parsed safely and applied exactly in order",
  "/etc/passgen.conf is read first, then $XDG_CONFIG_PATH/passgen.conf or, without that variable, $HOME/.config/passgen.conf; a missing "
  "file is no error, a path that does not fit is not opened, and what was opened and allocated is closed and released. Whatever at most "
  "10240 bytes are read, parsing stays within them. Each line 'random VALUE', 'wordlist VALUE' or 'preset VALUE' has its effect exactly "
  "once, in order, with the value from after the blanks to the end of the line unchanged; comment lines from # and empty lines have none.",
  ["inputs", "faults"], "any contents and length of the file (memory safety); any values and comments in eleven arrangements of lines per directive, "
  "any values of the environment variables; Debug and Release", "No test reads a configuration file.",
  ["src/cli/passgen.c"],
  [("parsing", "src/cli/passgen.c passgen_cli_opts_config_parse"), ("files", "src/cli/passgen.c passgen_cli_opts_config")],
  "Abstract interpretation: once with a text of arbitrary length and contents, joining paths, for memory safety; once per arrangement of "
  "lines with arbitrary values in between, unfolding the loop over lines and generalising the loops over characters, for the effects; "
  "the file access with environment, fopen and fread modelled.")
P("X05", "The tool works inside its sandbox and reports every outcome",
  "Built with seccomp, the tool loads its filter before it reads any configuration, option or randomness; every other system call is "
  "fatal, and what is allowed cannot open files for writing, write anywhere but to stdout and stderr, close these, create executable "
  "or file mappings, or reach processes or the network, while all calls the tool needs are allowed. Memory, present and future, is locked "
  "first. Configuration comes before options; help and version end with status 0, other failures with their own status and without "
  "passwords; options are released on success.",
  ["inputs", "faults"], "every rule of the filter and every combination of outcomes of the steps of main; Debug and Release",
  "Tests run neither main nor the filter; a rule that is too wide changes nothing visible.",
  ["src/cli/passgen.c", "src/cli/main.c"],
  [("filter", "src/cli/passgen.c passgen_cli_seccomp_init"), ("steps", "src/cli/main.c main")],
  "Abstract interpretation of main with the steps replaced by their outcomes; rules given to libseccomp are collected with their "
  "constant arguments and each is checked against the policy (all argument values it admits), as are the calls needed (glibc, x86-64).")

# ------------------------------------------------------------------ not applicable
P("N01", "The cryptographic primitives compute the published functions",
  "ChaCha20, Argon2, BLAKE2b and SipHash produce the output their specifications define for every key, nonce, input and length.",
  ["inputs"], "every key, nonce, input and length", "Test vectors cover a few lengths and keys.",
  ["src/monocypher.c", "src/util/siphash.c"], [("primitives", "src/monocypher.c, src/util/siphash.c")], "",
  "Bit-exact equivalence of rounds of additions, rotations and multiplications with a reference is not a dataflow fact: it needs a reference "
  "implementation and equivalence proofs by a solver. What is static about them (which bytes go in and out, wiping, bounds) is in R06 to R08 and H02.")
P("N02", "Every call terminates",
  "Drawing, generating, parsing, inserting into maps and tables all return for every input.",
  ["inputs", "histories"], "every input and sequence of random bytes", "A hang shows only for particular inputs.",
  ["src/random/random.c", "src/container/hashmap.c", "src/markov.c"], [("rejection", "src/random/random.c"), ("growth", "src/container/hashmap.c")], "",
  "Rejection sampling ends only with probability one, and growing a hash map or a markov table ends depending on hash values and code points "
  "modulo primes: there is no static bound, and ranking arguments do not exist for these loops.")
P("N03", "The random sources are statistically good",
  "The bytes of every source are unbiased and independent.",
  ["inputs"], "every seed", "Statistical tests sample.",
  ["src/random/system.c", "src/random/xorshift.c", "src/random/deterministic.c"], [("sources", "src/random")], "",
  "A statement about probability distributions of the kernel's generator, xorshift64 and ChaCha20, not about the code. Which source is used "
  "(R04) and that its bytes are neither reused nor biased afterwards (R01, R02) is decided.")
