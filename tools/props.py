"""The properties, in one place; tools/gen.py turns this into properties.jsonl and MANIFEST.json."""

PROPS = []
LIBMY_WHY = "The crc32c unit test samples one function of this library; nothing in the test suite runs this one. "


def P(id, title, statement, over, qtext, why, files, mech, note="", na=None, **kw):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if na:
        d["na"] = na
    else:
        d["note"] = note
    d.update(kw)
    PROPS.append(d)


BND = ("Sound abstract interpretation over all contents; the lengths named here are enumerated, larger ones are not analysed: ")
SND = "Sound over-approximation of every path (loops widened) under the listed library contracts. "

# ------------------------------------------------------------------ entries
P("C01", "Decoding any database entry is memory safe",
  "For any key and value bytes, of any lengths, decoding a database entry either succeeds or reports failure, and never reads outside the "
  "two byte strings or the decoded entry, never writes outside objects it owns, never uses uninitialised data and never aborts on malformed "
  "bytes. Everything a failed decode allocated is released.",
  "inputs", "every key and value byte string of any length",
  "The suite does not decode a single entry; the set of malformed keys is infinite and an overrun usually goes unnoticed.",
  "dnstable/entry.c dnstable/triplet.c libmy/ubuf.h libmy/vector.h",
  [("dnstable_entry_decode and the five per-type decoders", "dnstable/entry.c"), ("triplet unpacking", "dnstable/triplet.c")],
  SND + "The leak half is decided with at most 3 iterations per decoding loop (thorough: 5).")

P("C02", "Accessors return exactly the fields encoded in the key and value",
  "When an entry decodes, every accessor (owner name, rrtype, bailiwick, rdata, times, count, version, source info) yields exactly the field "
  "that the documented key/value layout places at that position. A key or value that does not have the documented layout is rejected rather than "
  "decoded to something else.",
  "inputs", "every key and value, read against an independent reading of the documented layout",
  "No test decodes entries at all; a wrong offset shows only for particular name and rdata lengths.",
  "dnstable/entry.c dnstable/triplet.c",
  [("per-type decode and accessors", "dnstable/entry.c"), ("triplet layout", "dnstable/triplet.c")],
  BND + "at most 3 rdata/label iterations per loop (thorough: 5); field lengths and bytes unbounded; one RRset of some hundred rdata whose contents are known.")

P("C07", "Merging duplicate entries keeps first/last seen extremes and sums counts",
  "Merging two values of the same RRset or rdata key yields the earlier first-seen time, the later last-seen time and the sum of the counts, "
  "encoded so that it decodes to exactly those, in memory the caller owns. A key type without a merge rule merges to an empty value.",
  "inputs histories", "all pairs of valid values under any key, in either order (so for any merge order)",
  "The merge function is not exercised by any test that runs here; the result must not depend on the grouping of files.",
  "dnstable/merge.c dnstable/triplet.c", [("dnstable_merge_func", "dnstable/merge.c"), ("triplet_pack/unpack", "dnstable/triplet.c")],
  SND + "Values which are not valid triplets abort by design and are outside the property.")
P("C08", "Rrtype unions: membership, unpacking and merging are exact set operations",
  "An rrtype tests as present in an rrtype union exactly when the union lists it; an absent union admits every rrtype that is indexed for that kind "
  "of entry, and a truncated one excludes nothing. The members listed for display are exactly the present ones in increasing order, and merging two "
  "unions gives exactly their set union (unknown when either is unknown), again well formed.",
  "inputs", "every union byte string, rrtype and pair of unions", "Unions never appear in tests that run here; errors depend on bit positions.",
  "dnstable/entry.c dnstable/merge.c", [("rrtype_test, rrtype_union_unpack", "dnstable/entry.c"), ("merging of unions", "dnstable/merge.c")],
  "Membership: sound for memory safety at any length, and exact for up to 3 blocks of any length. Unpacking: all contents of up to two blocks. "
  "Merging: enumerated shapes (empty, single, one and two blocks at boundary windows and bits); runs of whole unions with up to 256 windows.")
P("C09", "Merging version and time-range entries is conservative",
  "Merging two time-range entries covers both, and merging two version entries of a known type keeps the lower version. An empty value on either "
  "side means unknown and makes the result unknown.",
  "inputs histories", "all pairs of values, empty ones included", "No test merges these entries.",
  "dnstable/merge.c", [("dnstable_merge_func", "dnstable/merge.c")], SND + "Values which are not valid varints abort by design.")
P("C03", "Each kind of entry answers exactly the fields it has",
  "An accessor succeeds on exactly the kinds of entry that have the field (names of rrsets and their index, rdata of rdata entries, times and counts of "
  "data entries, and so on) and otherwise reports failure without touching its output. What it yields stays correct after the bytes the entry was decoded "
  "from are gone.",
  "inputs", "every accessor on every kind of entry, all times and counts", "No test decodes an entry; a table of accessors times kinds has cells nobody tries.",
  "dnstable/entry.c", [("dnstable_entry_get_* accessors", "dnstable/entry.c")], "One small entry of each kind, with all values of its times and counts.")
P("C04", "Names of entry types are a one-to-one mapping",
  "Every entry type has a name from which exactly that type is recovered. A number that is no entry type has no name, and a string that names no "
  "type is rejected.",
  "inputs", "every 8-bit type value and every string", "A test samples a few names; the gaps between the types are not sampled.",
  "dnstable/entry.c", [("dnstable_entry_type_to_string, dnstable_entry_type_from_string", "dnstable/entry.c")],
  "All type values; strings at every single-character deviation from the valid names.")
P("C05", "Generated JSON is valid and decodes to exactly the data",
  "Whatever bytes a string holds, it is written as one well-formed JSON string that decodes back to the string, with control characters, quotes and "
  "backslashes escaped. Numbers are written in full decimal, booleans and member names as given.",
  "inputs", "every byte string and every 64-bit number", "Strings come from the database: any byte may occur in a rrname or rdata.",
  "dnstable/dnstable-json.h", [("append_json_value_string and its siblings", "dnstable/dnstable-json.h")],
  BND + "each single byte, all kinds of bytes in sequences of up to four, strings of several hundred bytes; all numbers; the JSON of the entries of C06. Memory safety for strings of any length.")
P("C06", "Formatted entries show exactly the decoded fields",
  "The text and the JSON form of an entry show its names, types, times, counts, and rdata, with nothing missing, added or confused, for every choice of "
  "formatter options. Formatting never reads outside the entry and never aborts, whatever the database holds.",
  "inputs", "every entry that decodes and every formatter setting", "The suite formats nothing that runs here; output depends on locale, options and extreme values.",
  "dnstable/entry.c libmy/my_format.c",
  [("dnstable_entry_to_text/to_json and the formatter", "dnstable/entry.c"), ("my_format_uint64, fmt_uint64_str", "libmy/my_format.c")],
  BND + "exact text: entries of each kind with up to two rdata, with 260 rdatas, with rdata of 300 and 900 bytes and with 257 rrtypes, and fixed time and count samples at digit boundaries; memory safety: any entry, with at most 2 rdata "
  "iterations and separators of up to 16 bytes. Names and rdata text come from the wdns model.")
# ------------------------------------------------------------------ queries
QWHY = "No test that runs here executes a query. "
QF = "dnstable/query.c dnstable/query_mtbl.c"
WLD = "The table model (sorted keys known, values and timestamps symbolic) stands for libmtbl. "
P("C10", "Unaggregated queries return every matching observation exactly once, in order",
  "A query with aggregation turned off returns each matching observation of each file of a fileset exactly once, without merging duplicates, in key "
  "order and in first-seen order within one key. Time bounds drop exactly the observations that violate them.",
  "inputs histories", "all first/last-seen times and counts in all files, every choice of time bounds", QWHY + "Ties and fences interact.",
  QF, [("dnstable_query_iter_fileset, fileset without merging, dupsort", "dnstable/query.c"), ("time filter", "dnstable/query.c")],
  BND + "two files of one key with all values unknown; Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches (limits unknown). " + WLD + "Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C11", "Stored times and counts round-trip exactly",
  "Packing two or three unsigned numbers and unpacking them gives the same numbers in the same order, and the packed form is exactly their varints. "
  "Bytes that are not exactly that many varints, because one is cut short, is too long, or more follows, are rejected without reading past their end.",
  "inputs", "all 64-bit numbers; every byte string", "No test runs this code; 2^192 triplets cannot be sampled.",
  "dnstable/triplet.c", [("triplet_pack/unpack, pair_pack/unpack", "dnstable/triplet.c")],
  "All values at every combination of lengths; arbitrary byte strings of up to 7 bytes, and overlong varints in each position.")
P("C14", "A reader delivers every decodable entry of the part asked for",
  "Iterating a kind of entry through a reader reads exactly the part of the source with that kind's prefix and delivers each entry that decodes once, in "
  "order, passing over malformed ones. A reader of a set file merges its files with the library's merge function, reloads when asked, and runs queries on the "
  "files; a reader of a source leaves the source to its owner.",
  "inputs histories", "every kind of entry and every mix of well-formed and malformed entries", "No test opens a reader.",
  "dnstable/reader.c dnstable/iter.c", [("dnstable_reader_iter*, dnstable_reader_query", "dnstable/reader.c"), ("iterator dispatch", "dnstable/iter.c")],
  BND + "sources of up to 3 entries of any kind, of 40 entries of varied sizes, and with several hundred undecodable entries in a row.")
P("C12", "The entry filter accepts exactly the entries satisfying the query's conditions",
  "Testing a decoded entry against a query accepts it exactly when it has the rrtype asked for (or, for a name search without rrtype, a type that holds a "
  "name), its times lie within all given bounds inclusively and it has the bailiwick asked for. It reports failure only when the entry lacks a field "
  "the query needs.",
  "inputs", "all rrtypes, times, bounds and bailiwicks of all entry kinds", QWHY + "Boundary values of 64-bit times cannot be sampled.",
  "dnstable/query.c", [("dnstable_query_filter", "dnstable/query.c")],
  "Sound over all times, bounds and rrtypes; bailiwicks of up to two labels of up to two bytes.")
P("C13", "Time fencing of aggregated queries equals filtering the fully merged data",
  "With time bounds on a fileset, an aggregated query returns exactly the entries whose merged first/last-seen times satisfy all the bounds, with "
  "the merged times and count over all files. Skipping or adding files because of their own time ranges never changes a result, whatever a file "
  "says (or does not say) about its time range.",
  "inputs histories configurations", "all times in all files and their announced ranges, every combination of the four bounds",
  QWHY + "Wrong results need a particular constellation of several files and bounds.",
  QF, [("reader_time_filter, fill merger, removal and left join", "dnstable/query.c"), ("ljoin/remove", "dnstable/query_mtbl.c")],
  BND + "two files of one key with all values and ranges unknown; Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches (limits unknown). " + WLD + "Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C16", "A left join yields exactly its left keys with right values merged in",
  "Joining two sources yields every key of the left one within the search, in order and no other; a key present on the right has the merge of both "
  "values, left first, any other has its own. This holds after any seeks, and a failing merge ends in failure and not in wrong data.",
  "inputs histories", "every pair of key sets, every search kind, every history of next and seek", QWHY + "Only certain orders of seeks desynchronise.",
  "dnstable/query_mtbl.c", [("ljoin_mtbl", "dnstable/query_mtbl.c")], BND + "three keys (also of different lengths, one a prefix of another) and empty values; histories of up to 3 operations followed by a full walk; also 320 keys of up to 310 bytes (also differing only past byte 255) with seeks.")
P("C17", "Removing sources hides exactly their keys from the upstream source",
  "A source from which others are subtracted yields exactly the upstream keys that occur in none of the others, in order, with their own values. This "
  "holds for full walks, lookups, prefix and range searches, and after seeks forwards or backwards.",
  "inputs histories", "every pair of key sets, every search kind, every history of next and seek", QWHY + "Errors need interleaved seeks and skips.",
  "dnstable/query_mtbl.c", [("remove_mtbl", "dnstable/query_mtbl.c")], BND + "three keys, one or two subtracted sources; histories of up to 4 operations, then a full walk; also 320 keys of up to 310 bytes (also differing only past byte 255) with three sources, eight sources, and seeks.")
P("C18", "A filtered source yields exactly what its filter accepts",
  "A filtered source yields exactly the upstream entries its filter accepts, unchanged and in order, also when the filter itself seeks ahead, and ends "
  "when the filter fails. Refused entries and seeks made by the filter are counted exactly.",
  "inputs histories", "every table, filter behaviour and history of next and seek", QWHY + "Filters that seek are used by wildcard searches only.",
  "dnstable/query_mtbl.c", [("filter_mtbl", "dnstable/query_mtbl.c")], BND + "three keys and every behaviour of the filter on each; histories of up to 2 operations, then a full walk; also 320 keys with long refused runs and seeks. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C19", "Queries stop at their timeout or deadline and report it as such",
  "Once the deadline (or the timeout counted from the start of the query) has passed, the next result call reports a timeout and never a result or the "
  "end; before that, it never does. A query can be continued after a timeout without losing or repeating results, and everything is released.",
  "inputs schedules", "every sequence of clock readings, results and seeks", QWHY + "Timing cannot be driven exactly by a test.",
  QF, [("timeout_mtbl and query_iter_next", "dnstable/query.c")], BND + "tables of up to three entries; clock readings arbitrary and monotonic. Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches, interrupted after every one or two fetches.")
P("C20", "An offset skips exactly that many results",
  "With an offset n the results of a query are those without an offset, less the first n; an offset beyond the end gives no result. Running the "
  "same query again skips the same number again.",
  "inputs histories", "every 64-bit offset, every number of results, repeated use of a query", QWHY + "All 2^64 offsets are covered at once.",
  "dnstable/query.c", [("filter_offset", "dnstable/query.c")], BND + "searches with up to three results; offset unbounded. Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C21", "A query searches exactly the keys the documented encoding assigns to it",
  "A query for an owner name, rdata name, raw rdata, wildcard, version, source information or time range opens the source with exactly the key prefix the "
  "documented encoding gives for its name (reversed where indexed so, lower case unless case-sensitive), rrtype and bailiwick. What cannot be encoded "
  "gives no iterator.",
  "inputs", "all names, rrtypes, bailiwicks and rdata", QWHY + "A key that is off by one field silently returns nothing.",
  "dnstable/query.c", [("query_init_*", "dnstable/query.c")],
  "Sound over all name contents and lengths (names are opaque byte strings); wildcard names of up to three labels of up to two bytes. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C22", "IP searches cover exactly the addresses asked for",
  "A search for an address, a range or a prefix opens exactly the range of keys of those addresses, for both address families; mixed families, "
  "reversed ranges, bad prefix lengths and rrtypes of the other family are refused. Host bits of a prefix do not matter.",
  "inputs", "all addresses, ranges and prefix lengths", QWHY + "Carry and boundary errors show for particular prefix lengths.",
  "dnstable/query.c libmy/ip_arith.h", [("query_set_data_rdata_ip*", "dnstable/query.c"), ("query_init_rdata_ip", "dnstable/query.c")],
  "Exhaustive over prefix lengths and families, all addresses at once in a per-bit domain. Parsing of address text is libc's. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C23", "The last setting of a query counts, and refused settings are reported",
  "Any setting of a query can be replaced or cleared: the query then behaves as if only the last accepted value had ever been given. A refused setting "
  "reports failure, leaves an error message and never a stale or freed value.",
  "inputs histories", "every history of settings", QWHY + "Histories of settings are unbounded.",
  "dnstable/query.c", [("dnstable_query_set_*", "dnstable/query.c"), ("dnstable_query_get_error", "dnstable/query.c")],
  BND + "histories of up to three settings of the same kind.")
P("C24", "Query statistics count exactly what happened",
  "The counters of a running query report exactly the entries each stage filtered, the seeks it made, the values it merged and the files it opened; a "
  "stage the query does not have is reported as absent. Counting changes no result.",
  "inputs histories configurations", "every stage, counter and history of results", QWHY + "Counters are compared with counts kept beside them on every path.",
  QF, [("dnstable_query stage counters", "dnstable/query.c"), ("get_counter", "dnstable/query_mtbl.c")],
  BND + "tables of up to three entries. " + WLD + "Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C25", "Running a query over arbitrary data is memory safe and releases everything",
  "Whatever bytes and lengths the entries of a source have, running any query over it never reads or writes out of bounds, uses freed or uninitialised "
  "data or aborts. Destroying iterator and query releases everything, once, at any point.",
  "inputs histories", "all entries of all lengths, every query kind with every filter", QWHY + "Corrupt databases are not in the test data.",
  QF + " dnstable/iter.c", [("query_iter_next and filter functions", "dnstable/query.c"), ("wrappers", "dnstable/query_mtbl.c")],
  "Entries of any length and content; one or two entries per search and at most 4 iterations per loop are followed (longer loops are cut). Sets of two files whose entries, index unions and time ranges are malformed in "
  "every way, read to any point; values of one key in two files are well formed, because merging and ordering others stops the program by design (assert).")
P("C26", "Label filtering of wildcard searches skips only what cannot match",
  "A '+' wildcard search returns exactly the names with one label in place of the wildcard. Every forward seek it makes from a non-matching entry goes to "
  "a key that is greater than the current one and not beyond the next possible match.",
  "inputs", "every entry and every searched name", QWHY + "Skipping errors lose results only for particular neighbouring names.",
  "dnstable/query.c", [("filter_single_label*", "dnstable/query.c")],
  BND + "names of up to three labels of up to two bytes, and labels of 63 bytes; every key content. Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C27", "Rrtype, bailiwick and time filters of a search accept exactly what matches",
  "While a query runs, an entry of the source reaches the caller exactly when its key and value have the rrtype, bailiwick and times asked for. "
  "An entry too short to tell is not taken for a match.",
  "inputs", "every entry of the source and every combination of filters", QWHY + "Filters work on raw keys of arbitrary lengths.",
  "dnstable/query.c", [("filter_rrtype*, filter_bailiwick, filter_time*", "dnstable/query.c")],
  "Sound for arbitrary key bytes with names of up to two labels; rrtypes and times unbounded. Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C28", "Address searches skip only keys that cannot match",
  "An address or range search returns exactly the entries of the address type within the range. Every forward seek from a foreign entry goes to a key that "
  "is greater than the current one and not beyond the next possible match.",
  "inputs", "every entry between the ends of every range", QWHY + "A seek too far loses results only for particular foreign entries.",
  "dnstable/query.c", [("filter_rrtype_ip", "dnstable/query.c")],
  BND + "entries with up to three labels of up to two bytes after the address, and labels of 63 bytes; addresses unbounded. Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C29", "Index searches find exactly the main entries the index leads to",
  "A search through a name index visits each index entry of the wildcard once, and for each one the main entries of exactly that name, in order, with all "
  "filters applied. Index entries whose rrtype union excludes the rrtype asked for are skipped, and a missing or malformed index entry loses nothing else.",
  "inputs histories", "every sequence of index and main entries", QWHY + "Two sources advance in step.",
  "dnstable/query.c", [("query_iter_next_*_indirect", "dnstable/query.c")],
  BND + "up to two index entries with up to two main entries each, names of up to two labels. Beside it, whole searches of every kind over two files of 8 to 11 known observations each against the definition of what matches. Also searches over tables of 300 to 600 known entries, most of which match, or are skipped or filtered.")
P("C30", "Public names and exports match what the library provides",
  "Every query stage, statistics category and result code has its own name from which it is recovered, and unknown ones are rejected. Every function the "
  "public header declares is defined and exported, and nothing undeclared is exported.",
  "inputs", "all codes and names, all declared functions", "No test links the shared library or calls these functions.",
  "dnstable/util.c dnstable/dnstable.h dnstable/libdnstable.sym",
  [("stage/category/result names", "dnstable/util.c"), ("export list", "dnstable/libdnstable.sym")],
  "Exhaustive over codes and declarations.")
# ------------------------------------------------------------------ commands
CLI = "No test runs this program; its options combine in thousands of ways. "
P("C31", "The lookup command runs exactly the query its arguments ask for",
  "dnstable_lookup runs one query of the kind, data, rrtype, bailiwick, time bounds, offset, case and aggregation its arguments and environment name, and "
  "prints each result once in the form asked for, or only their number. A number out of range is never taken for another. Combinations the manual rules out, and settings the library refuses, end it "
  "with an explanation and a failure status before anything is searched.",
  "inputs", "every combination of options, words and environment; all times", CLI,
  "src/dnstable_lookup.c", [("main, print_entry, do_dump", "src/dnstable_lookup.c")],
  "Up to 5 words; switches in all combinations; bounds symbolic. The C library's option parser is modelled.")
P("C32", "Times given to the lookup command mean what the manual says",
  "A date, an epoch time, a negative relative time, or a sum of weeks, days, hours, minutes and seconds is taken for exactly that time. Anything else, and "
  "any time that is not after the epoch or cannot be represented, is refused.",
  "inputs", "every present time, at each format and its limits", CLI, "src/dnstable_lookup.c", [("parse_time", "src/dnstable_lookup.c")],
  "About 60 forms, chosen at the limits of each format; the present time symbolic.")
P("C33", "The lookup command keeps its time limit and reports in between",
  "With a time limit the query is stopped within it and not before, also when reports at intervals interrupt it; without one it is never given up. "
  "Statistics printed are exactly the counters of the query, summed over stages or one by one.",
  "schedules histories", "every passing of time and every sequence of timeouts", CLI + "Timing cannot be controlled in a test.",
  "src/dnstable_lookup.c", [("do_dump, deadlines", "src/dnstable_lookup.c"), ("do_dump_stats_*", "src/dnstable_lookup.c")],
  BND + "two interruptions; clock readings symbolic.")
P("C34", "The dump command prints every entry of the part asked for",
  "dnstable_dump reads exactly the part of the file its option names and prints each entry once, in order, in the form asked for. It refuses to run without "
  "exactly one part and a readable file, and raw rdata without JSON or for parts without rdata.",
  "inputs", "every combination of options", CLI, "src/dnstable_dump.c", [("main, do_dump, print_entry", "src/dnstable_dump.c"), ("argv_process", "libmy/argv.c")],
  BND + "parts of up to 60 entries; with the option parser it is linked with, and with a model of it.")
P("C35", "The merge command passes every argument through unchanged",
  "dnstable_merge gives mtbl_merge exactly its own arguments, whatever characters they contain. It names a merge function that the library exports.",
  "inputs", "every argument list", "No test runs the script; file names with blanks are rare.",
  "src/dnstable_merge.sh.in dnstable/libdnstable.sym", [("word splitting and exported names", "src/dnstable_merge.sh.in")],
  "Every expansion in the script is inspected.")
# ------------------------------------------------------------------ libmy codecs
P("C40", "Variable-length integers round-trip and are read only within bounds",
  "Encoding any unsigned value as a varint and decoding it gives the same value and the same length, which equals the advertised encoded length. "
  "The packed length computed for a buffer is that of the varint stored there, and is zero when the buffer ends before the varint does; no "
  "byte past the buffer is read.",
  "inputs", "all 32- and 64-bit values; every buffer of every length", LIBMY_WHY + "A round trip over all 2^64 values cannot be sampled.",
  "libmy/varint.c libmy/varint.h", [("varint encode/decode/length", "libmy/varint.c")],
  SND + "The decoded value is compared bit for bit as a known-bits expression.")
P("C41", "IP address arithmetic is exact for every address and prefix length",
  "Taking the network or broadcast address of an IPv4 or IPv6 address for a prefix length keeps exactly the first prefix-length bits and clears "
  "(or sets) exactly the others, also when source and destination are the same buffer. Incrementing an address adds one modulo 2^32 or 2^128.",
  "inputs", "every address and every prefix length 0..32 or 0..128", LIBMY_WHY + "Shift edge cases depend on the prefix length modulo 32.",
  "libmy/ip_arith.h", [("ip4/ip6 lower, upper, incr", "libmy/ip_arith.h")],
  "Exhaustive over prefix lengths, all addresses at once in a per-bit domain; no bound left.")
P("C42", "Hexadecimal text decodes to exactly its bytes or is rejected",
  "Decoding a hexadecimal string yields one byte per pair of digits with the first digit as the high half, in either letter case. A string with a "
  "non-hexadecimal character or an odd number of digits is rejected, and nothing allocated for it remains.",
  "inputs", "every string", LIBMY_WHY + "256^n strings; a wrong digit range shows for single characters only.",
  "libmy/hex_decode.h", [("hex_decode", "libmy/hex_decode.h")], BND + "strings of 0 to 4 characters with any contents, and longer ones of up to 520 characters.")
P("C43", "Growable vectors never lose elements nor write outside their storage",
  "After any sequence of init, add, append, extend, reserve, clip, reset, reinit and detach, a growable vector holds exactly the elements put in "
  "and not removed, in order, and its storage is at least as large as it claims. Text helpers built on it keep the bytes exact and terminate "
  "strings where they say so; destroying it frees the storage once.",
  "inputs histories", "every sequence of operations with any counts", LIBMY_WHY + "Growth happens only at certain size boundaries.",
  "libmy/vector.h libmy/ubuf.h", [("VECTOR_GENERATE operations", "libmy/vector.h"), ("ubuf text helpers", "libmy/ubuf.h")],
  BND + "histories of 3 operations from small initial hints for exact contents, and long ones growing to 1,300 elements; memory safety of a history of any counts by widening.")
P("C44", "A heap hands back its elements in comparison order and loses none",
  "Popping a heap until it is empty yields every element that was pushed exactly once, in the order of its comparison function. The same holds "
  "for elements added unordered and then heapified, after replacing the top, and after clipping; an empty heap yields nothing.",
  "inputs histories", "every sequence of pushes, pops, replacements and clips, for every outcome of the comparisons",
  LIBMY_WHY + "Sift errors appear only for particular shapes and orders.",
  "libmy/heap.c libmy/heap.h", [("siftup/siftdown and the heap operations", "libmy/heap.c")],
  BND + "heaps of up to 6 elements with all key orders (ties included), and of 9 to 300 elements in several orders.")
P("C45", "The single-producer queue is a FIFO and publishes items before indices",
  "A queue of a given size delivers the inserted items in order, exactly once, refuses an insert when full and a removal when empty, and reports "
  "the remaining space correctly. An item's contents are written (or read) completely before the index change that hands its slot to the other "
  "side, in the lock-free and in the mutex implementation, and the mutex is held around every index access.",
  "inputs histories schedules", "every sequence of operations by producer and consumer, including wrapped indices and item sizes",
  LIBMY_WHY + "Ordering errors need a particular interleaving on a particular machine.",
  "libmy/my_queue.c libmy/my_queue_mb.c libmy/my_queue_mutex.c libmy/my_memory_barrier.h",
  [("insert/remove with memory barriers", "libmy/my_queue_mb.c"), ("mutex variant", "libmy/my_queue_mutex.c")],
  "FIFO contents for histories of bounded length from every index state; the publish-before-index and lock rules are order rules on the "
  "recorded accesses of every path of insert and remove, for any size and index (single-core interleavings are not enumerated: the rules imply "
  "them under the barrier semantics).")
P("C47", "Base32 encoding and decoding are exact inverses in bounded output",
  "Encoding bytes to base32hex gives the RFC 4648 digits, as many as fit in the output and never more than its size; decoding those digits into a "
  "buffer of the original length gives back the original bytes. Encoding nothing gives nothing, and a character outside the alphabet is not "
  "taken for a digit.",
  "inputs", "every byte string, and every digit string", LIBMY_WHY + "Bit-packing differs per length modulo five.",
  "libmy/b32_encode.c libmy/b32_decode.c", [("base32_encode", "libmy/b32_encode.c"), ("base32_decode", "libmy/b32_decode.c")],
  BND + "inputs of 0-6, 10, 12, 20, 33, 64 and 256 bytes (every residue mod 5), all contents by a per-bit domain. Unpadded digits only.")
P("C48", "Base64 encoding and decoding are exact inverses in any block split",
  "Base64-encoding bytes, in one call or split over several, yields the RFC 4648 text, with padding and without line breaks, and decoding "
  "it yields the original bytes. Characters outside the alphabet are skipped and no byte outside the input or the code tables is read.",
  "inputs histories", "every byte string, every split into blocks, and every stray character", LIBMY_WHY + "State is carried across blocks.",
  "libmy/b64_encode.c libmy/b64_decode.c", [("base64_encode_block/_blockend", "libmy/b64_encode.c"), ("base64_decode_block", "libmy/b64_decode.c")],
  BND + "inputs of 0-5, 7, 57 and 100 bytes, all contents by a per-bit domain; 260 bytes, and byte-by-byte pieces.")
P("C49", "CRC-32C is the Castagnoli checksum on every code path",
  "The checksum of any bytes is the reflected CRC-32C of those bytes, whether computed by tables or by the processor's instruction and "
  "whatever the alignment of the data. No byte outside the data is read.",
  "inputs configurations", "all contents, lengths and alignments, both implementations",
  "The unit test has 17 fixed vectors and runs the one implementation the machine selects, aligned one way.",
  "libmy/crc32c.c libmy/crc32c-slicing.c libmy/crc32c-sse42.c",
  [("table-driven checksum", "libmy/crc32c-slicing.c"), ("instruction checksum", "libmy/crc32c-sse42.c"), ("selection", "libmy/crc32c.c")],
  BND + "0-24 and up to 100 bytes at four alignments, all contents at once, and chosen contents of 127 to 1,025 bytes: the result is compared as a GF(2)-linear form with bitwise CRC-32C.")
P("C50", "Timespec arithmetic normalises, orders and sleeps correctly",
  "Adding or subtracting two normalised times yields the normalised exact result, and comparing two times orders them by seconds and then "
  "nanoseconds. Sleeping continues with the remaining time when interrupted.",
  "inputs fault_sequences", "all normalised times; every sequence of interruptions", LIBMY_WHY + "Carries and EINTR are rare.",
  "libmy/my_time.h", [("my_timespec_add/sub/cmp", "libmy/my_time.h"), ("my_nanosleep", "libmy/my_time.h")],
  SND + "Conversion from floating point is not covered.")
P("C51", "Linked lists keep order and both directions consistent",
  "After any sequence of append, prepend, insert before or after, unlink and list concatenation, walking a list forwards and backwards visits "
  "exactly its elements in order. An element taken out is marked unlinked.",
  "histories", "every sequence of list operations", LIBMY_WHY + "Link errors need an operation at a particular position.",
  "libmy/list.h", [("ISC_LIST macros", "libmy/list.h")], BND + "all histories of up to 4 operations on up to 7 elements, and two lists of 12 elements used in turn.")
P("C46", "A file set holds exactly the existing files its set file names",
  "After a reload, the set holds exactly the existing files named by the set file, in the order of their names, each loaded exactly once, and a "
  "file in both the old and the new set keeps what was loaded for it. A set file which is gone, unchanged or unreadable leaves the set as it is "
  "and is tried again, and everything loaded is unloaded exactly once in the end.",
  "histories fault_sequences", "every history of changes to the set file and its files, with failures to read them",
  LIBMY_WHY + "Double loads and lost files need a particular sequence of contents.",
  "libmy/my_fileset.c", [("my_fileset_reload, merge of old and new set", "libmy/my_fileset.c")],
  BND + "histories of up to 3 changes over 7 set file contents (duplicates, missing newline, reorderings) naming up to 3 files; names of 1 to 600 characters; sets of 150 files with scattered changes.")
P("C53", "String and file utilities return what they promise for every input",
  "Replacing a string replaces every occurrence from left to right and leaves the rest alone. Printing a string escapes exactly what is not "
  "printable, reading bytes returns all of them or failure across short reads and interruptions, and a numeric environment variable is taken "
  "only when it is a number.",
  "inputs fault_sequences", "all strings and contents; every sequence of short reads", LIBMY_WHY + "Overlaps and short reads are rare inputs.",
  "libmy/string_replace.h libmy/print_string.h libmy/read_bytes.h libmy/getenv_int.h",
  [("string_replace", "libmy/string_replace.h"), ("print_string", "libmy/print_string.h"), ("read_bytes", "libmy/read_bytes.h")],
  BND + "all strings of up to 5 characters, chosen ones of several hundred; reads of up to 6 bytes in every division.")
P("C54", "A spool directory hands out every incoming file once, moved to active",
  "The next file of a spool directory is a regular file of its incoming directory whose name does not start with a dot; it is moved to the active "
  "directory under the same name and its new path is returned. Every such file is handed out once, files which arrive later are found, and "
  "directory and names are only touched with the lock held, which is released on every return.",
  "histories fault_sequences schedules", "every content of the directories, arrivals between calls, failures to look at or move a file",
  LIBMY_WHY + "Races and failed moves do not happen in a test.",
  "libmy/spooldir.c", [("spooldir_init, spooldir_next", "libmy/spooldir.c")],
  BND + "histories of up to 5 calls over directories of up to 4 names; every first character of a name.")
P("C55", "A zone file is read record by record from its SOA to its end",
  "A file is a zone exactly if its first record is an SOA record; reading hands out that record and then every record up to the end of the file or "
  "the next SOA record, in order and once, each read with the origin and default TTL in force. Domain, serial number and record count are "
  "available throughout, the file name is never interpreted by a shell, and closing releases everything.",
  "inputs fault_sequences", "every sequence of records, directives, blank lines and errors; all file names",
  LIBMY_WHY + "Empty files, directives before the SOA and hostile names are unusual inputs.",
  "libmy/zonefile.c", [("zonefile_init_fname, zonefile_read", "libmy/zonefile.c")],
  BND + "files of up to 5 lines of every kind, and of 600 lines, against a model of the ldns line parser.")
P("C56", "The lookup3 hashes depend on bytes, length and seed only",
  "Each hash function returns Bob Jenkins' lookup3 hash of the key's bytes, its length and the seed or seeds. The result does not depend on the "
  "alignment of the key, and only the words that hold the key are read.",
  "inputs", "all keys and seeds, all four alignments", LIBMY_WHY + "Each alignment and length has its own code.",
  "libmy/lookup3.c", [("my_hashlittle and its variants", "libmy/lookup3.c")],
  BND + "keys of 0-26 bytes and 0-7 words, and known keys of 64 to 300 bytes, all contents and seeds at once: results are compared symbolically modulo 2^32.")
P("C57", "Numbers and bytes are formatted exactly within the given buffer",
  "Bytes are written as two hexadecimal digits each and numbers as their decimal digits, terminated, in the case asked for. What does not fit is "
  "left out, the size returned is that of the digits written, and nothing outside the buffer is touched or pointed to.",
  "inputs", "all numbers, bytes and buffer sizes of at least one", LIBMY_WHY + "Truncation at each size is rarely exercised.",
  "libmy/my_format.c", [("my_bytes_to_hex_str, my_uint64_to_str", "libmy/my_format.c")],
  BND + "all 64-bit numbers at once, 0-3 bytes, buffers of 1-21 bytes.")
P("C58", "Red-black and splay trees hold exactly what was put in",
  "After any sequence of insertions and removals, a tree finds exactly the elements it holds, walks them in order, and answers minimum, maximum, "
  "next and nearest correctly. A red-black tree stays balanced: no red node has a red child and every path has as many black nodes.",
  "histories", "every sequence of insertions and removals", LIBMY_WHY + "Rebalancing errors need a particular shape.",
  "libmy/tree.h", [("RB_* and SPLAY_* macros", "libmy/tree.h")],
  BND + "all insertion orders of 5 keys followed by removals in every order chosen, single removals from larger trees, and chosen histories over 40 elements.")
P("C59", "A command line is parsed exactly as its option table says",
  "Parsing accepts a command line exactly if every word is a known option, the value of one, or a word the table has room for, nothing mandatory is missing "
  "and no two exclusive options are used; then each variable and array holds exactly the values given, in order, and which options were used can be told. "
  "This holds for combined letters, abbreviated names, attached values, argument files and words from the environment, and nothing outside the table is touched.",
  "inputs", "every command line, argument file and environment", "No test runs a program which parses its arguments this way; options combine in thousands of ways.",
  "libmy/argv.c libmy/argv.h", [("argv_process, do_list, string_to_value", "libmy/argv.c"), ("argv_usage, argv_copy_args, argv_cleanup", "libmy/argv.c")],
  BND + "one table with every kind of option; all pairs and many triples of 43 kinds of words, arrays of up to 26 elements, argument files of up to 26 lines, 110 values of all integral types. "
  "Floating point values are not covered.")
