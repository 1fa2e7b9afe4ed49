"""The table of claimed properties: what is analysed for each, and under which rule."""

import custom

ENT = ["dnstable/entry.c", "dnstable/triplet.c"]

COMMON_ASSUMPTIONS = [
    "clang 18's -O0 LLVM IR (after mem2reg) of the current source is the program; x86-64 little-endian data layout",
    "libmtbl, libwdns and libc behave as the contracts in engine/models*.py and models/ say",
    "memory allocation succeeds (my_alloc.h asserts it), asserts are enabled, and no two threads share one object",
]


def unit(srcs, drivers, **kw):
    d = {"srcs": srcs, "drivers": drivers if isinstance(drivers, list) else [drivers]}
    d.update(kw)
    return d


MDL = "models/mtbl_model.c"
QSRC = ["dnstable/query.c", "dnstable/query_mtbl.c", "dnstable/entry.c", "dnstable/triplet.c", "dnstable/merge.c", "dnstable/iter.c"]
JSRC = ["dnstable/query_mtbl.c", "dnstable/triplet.c"]
SSRC = ["dnstable/query.c", "dnstable/query_mtbl.c", "dnstable/iter.c"]


def q(name, srcs=QSRC, **kw):
    return unit(srcs, ["drivers/%s.c" % name, MDL], **kw)


WHOLE = {"endless": 1500, "unroll": 400}
MANY = {"endless": 1500, "unroll": 1500, "vec": False}


PROPS = {}


def prop(pid, rule, units=(), custom=(), reach=(), **kw):
    PROPS[pid] = dict(rule=rule, units=list(units), custom=list(custom), reach=list(reach), **kw)


prop("C01", "every load, store and library call made while decoding an arbitrary entry stays inside a live object; "
     "no uninitialised value is used; the entry is released on every failing path",
     [unit(ENT, "drivers/c01_decode.c", opts={"leaks": False}),
      unit(ENT, "drivers/c01_decode.c", opts={"cut": 3}, thorough={"cut": 5})]
     + [q("d_many", prefix="rda_", opts=MANY)],
     reach=["many rdata", "decoded", "rejected"])

prop("C02", "on every path of the decoder the accessors agree with a reference reading of the same bytes",
     [unit(ENT, "drivers/c02_decode.c", opts={"cut": 3}, thorough={"cut": 5})]
     + [q("d_many", prefix="rda_", opts=MANY)],
     reach=["many rdata", "rrset decoded", "rdata decoded", "name decoded", "time range decoded", "version decoded", "source info decoded"])

prop("C07", "merged triplets of every RRset/rdata key; other keys get an empty value",
     [unit(["dnstable/merge.c"] + ENT, "drivers/d_merge.c", entries=["drv_merge_triplet", "drv_merge_other"])],
     reach=["triplets merged", "others merged"])
prop("C08", "members, malformed unions and merged unions against the definition of a type bitmap",
     [unit(ENT, "drivers/d_bitmap.c", opts={"unroll": 40}),
      unit(ENT, "drivers/d_bitmap.c", prefix="wid_", opts={"unroll": 1}),
      unit(ENT, "drivers/d_bitmap.c", prefix="cut_", opts={"cut": 3}),
      unit(["dnstable/merge.c"] + ENT, "drivers/d_merge.c", prefix="uni_", opts={"unroll": 60}),
      unit(["dnstable/merge.c"] + ENT, "drivers/d_merge.c", prefix="win_", opts={"unroll": 3000})],
     reach=["tested", "no union", "member", "not a member", "truncated", "malformed", "listed", "unknown union", "unions merged",
            "malformed union", "many rrtypes"])
prop("C09", "merged time ranges and versions of every value pair, unknown ones included",
     [unit(["dnstable/merge.c"] + ENT, "drivers/d_merge.c", entries=["drv_merge_time_range", "drv_merge_version"])],
     reach=["unknown range", "ranges merged", "unknown version", "versions merged"])

prop("C03", "every accessor on an entry of every type, against the table of documented fields",
     [unit(["dnstable/entry.c"], "drivers/e_acc.c", entries=["drv_applicable"], opts={"unroll": 40})], reach=["accessors"])
prop("C04", "names of entry types in both directions",
     [unit(["dnstable/entry.c"], "drivers/e_acc.c", entries=["drv_names", "drv_noname"], opts={"unroll": 40})], reach=["named", "unnamed"])
prop("C05", "the JSON of every byte, of byte sequences of every kind and of all numbers, against RFC 8259",
     [unit([], "drivers/e_json.c", opts={"unroll": 30}), unit([], "drivers/e_json.c", prefix="cut_", opts={"cut": 3}, thorough={"cut": 5}),
      unit(["dnstable/entry.c", "libmy/my_format.c"], "drivers/e_format.c", entries=["drv_rrset_json", "drv_rdata_json", "drv_names_json", "drv_other_json", "drv_many_types_json", "drv_many_rdatas_json", "drv_long_rdata_json", "drv_longer_rdata_json"], opts={"unroll": 1400, "rounds": 7000})],
     reach=["string", "plain", "number", "member", "json"])
prop("C06", "formatted entries against text built beside them; memory safety of formatting whatever decodes",
     [unit(["dnstable/entry.c", "libmy/my_format.c"], "drivers/e_format.c", opts={"unroll": 1400, "rounds": 7000}),
      unit(["dnstable/entry.c", "libmy/my_format.c"], "drivers/e_fmtsafe.c", opts={"cut": 2, "sepmax": 16}),
      unit(["dnstable/entry.c", "libmy/my_format.c"], "drivers/e_fmtsafe_json.c", opts={"cut": 2, "sepmax": 16})],
     reach=["json", "text", "formatted"])

prop("C11", "packed and unpacked numbers of every length, and arbitrary bytes, against varints written out beside them",
     [unit(["dnstable/triplet.c"], "drivers/c11_triplet.c", opts={"unroll": 60})], reach=["round trip", "well formed", "malformed", "overlong"])
# ---------------------------------------------------------------- libmy
prop("C40", "varint round trip, length and bounds",
     [unit(["libmy/varint.c"], "drivers/m_varint.c", opts={"unroll": 12})], reach=["unterminated"])
prop("C41", "per-bit equality of network/broadcast/incremented addresses with their definition",
     [unit([], "drivers/m_ip.c", opts={"unroll": 140})], reach=["ip4", "ip6", "incremented"])
prop("C42", "per-bit equality of decoded bytes; rejection exactly of malformed strings; no leak",
     [unit([], "drivers/m_hex.c", opts={"unroll": 12})], reach=["hex decoded", "hex rejected"])
prop("C43", "vector contents, sizes and storage against a reference sequence",
     [unit([], "drivers/m_vec.c", opts={"vec": False, "unroll": 80}), unit([], "drivers/m_veclong.c", opts={"vec": False, "unroll": 1500})],
     reach=["add", "append", "clip", "reset", "detach", "reserve", "extend", "reinit", "add_cstr", "cterm", "rstrip", "long history", "formatted", "long text"])
prop("C44", "heap order and multiset preservation on every comparison outcome",
     [unit(["libmy/heap.c"], "drivers/m_heap.c", opts={"unroll": 1000})], reach=["many", "pushed and popped", "heapified", "replaced"])
prop("C45", "FIFO contents; publish-before-index and lock rules on the access order",
     [unit(["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"], "drivers/m_queue.c", opts={"unroll": 300})],
     reach=["inserted", "full", "removed", "empty", "sequence done", "rounds"])
prop("C47", "per-bit equality with RFC 4648 base32hex and of the round trip",
     [unit(["libmy/b32_encode.c", "libmy/b32_decode.c"], "drivers/m_b32.c", opts={"unroll": 300})], reach=["base32 round trip"])
prop("C48", "per-bit equality with RFC 4648 base64 and of the round trip",
     [unit(["libmy/b64_encode.c", "libmy/b64_decode.c"], "drivers/m_b64.c", opts={"unroll": 300})],
     reach=["base64 round trip", "foreign character skipped"])
prop("C49", "GF(2)-linear equality with bitwise CRC-32C",
     [unit(["libmy/crc32c.c", "libmy/crc32c-slicing.c", "libmy/crc32c-sse42.c"], "drivers/m_crc.c", opts={"unroll": 1100}),
      unit(["libmy/crc32c.c", "libmy/crc32c-slicing.c", "libmy/crc32c-sse42.c"], "drivers/m_crc.c", prefix="wid_")],
     reach=["checksummed"])
prop("C50", "timespec results against their definition; remaining time is slept",
     [unit([], "drivers/m_time.c", opts={"unroll": 20})], reach=["no carry", "carry", "no borrow", "borrow", "slept"])
prop("C51", "list contents in both directions against a reference sequence",
     [unit([], "drivers/m_list.c", opts={"unroll": 20})],
     reach=["append", "prepend", "before", "after", "unlink", "appendlist"])
prop("C46", "what is loaded after every history of a set file and its files",
     [unit(["libmy/my_fileset.c"], "drivers/m_fileset.c", opts={"unroll": 3000})], reach=["large set", "long name", "reloaded", "unreadable", "plain", "alike"])
prop("C53", "results of the string and file utilities against their definition",
     [unit([], "drivers/m_util.c", opts={"unroll": 3000})], reach=["long", "replaced", "printed", "variable", "read", "not read"])
prop("C54", "what becomes of every file of a spool directory, under the lock",
     [unit(["libmy/spooldir.c"], "drivers/m_spool.c", opts={"unroll": 100})], reach=["made", "nothing there", "handed out", "not moved"])
prop("C55", "the records handed out for every sequence of lines of a zone file",
     [unit(["libmy/zonefile.c"], "drivers/m_zone.c", opts={"unroll": 100}),
      unit(["libmy/zonefile.c"], "drivers/m_zone.c", prefix="many_", opts={"unroll": 2000})],
     reach=["large zone", "not there", "empty", "no zone", "closed", "error", "part"])
prop("C56", "symbolic equality with lookup3 for all keys and seeds",
     [unit(["libmy/lookup3.c"], "drivers/m_hash.c", opts={"unroll": 100})], reach=["hashed", "words"])
prop("C57", "digits, termination and bounds for all numbers and bytes",
     [unit(["libmy/my_format.c"], "drivers/m_format.c", opts={"unroll": 100})], reach=["hex", "hex truncated", "hex16", "dec"])
prop("C58", "tree invariants and contents against a reference set",
     [unit([], "drivers/m_tree.c", opts={"unroll": 100})], reach=["red-black", "large", "splay"])
prop("C59", "command lines, argument files and environments against an interpreter of the documented rules",
     [unit(["libmy/argv.c"], "drivers/m_argv.c", opts={"unroll": 300})],
     reach=["second table", "accepted", "refused", "help", "error exit", "value", "copied"])

# ---------------------------------------------------------------- queries
prop("C10", "the sequence of results of an unaggregated query over two tables of known keys and unknown values, and of every kind of search "
     "and filter over two files of known entries",
     [q("d_fence", prefix="drv_unaggregated_", opts={"endless": 1500, "unroll": 40}), q("d_whole", prefix="una_", opts=WHOLE),
      q("d_whole", prefix="fun_", opts=WHOLE)]
     + [q("d_many", entries=["fls_apart"], opts=MANY), q("d_many", entries=["fls_apart_limits"], opts=MANY)], reach=["many", "a result", "searched", "one result", "two results", "no observation", "tie"])
prop("C12", "the filter predicate against a reference reading of entry and parameters",
     [q("d_qfilter", SSRC, entries=["drv_rrtype", "drv_times", "drv_bailiwick", "drv_left"], opts={"unroll": 60})],
     reach=["pass", "fail", "no such field"])
prop("C13", "the sequence of results of a fenced aggregated query over two tables of known keys and unknown values, and of every kind of "
     "search over two files of known entries and unknown limits",
     [q("d_fence", prefix="drv_aggregated_", opts={"endless": 1500, "unroll": 40}), q("d_whole", prefix="fen_", opts=WHOLE)]
     + [q("d_many", entries=["fls_merged"], opts=MANY), q("d_many", entries=["fls_merged_limits"], opts=MANY), q("d_many", entries=["fls_apart_limits"], opts=MANY)],
     reach=["many", "a result", "searched", "result", "no result"])
prop("C21", "the search handed to the source against the documented key layout",
     [q("d_qkey", opts={"unroll": 40}), q("d_qwild", opts={"unroll": 40}),
      q("d_whole", entries=["agg_rrset", "agg_rrset_left", "agg_rrset_right", "agg_rdata", "agg_rdata_left", "agg_rdata_right"], opts=WHOLE)]
     + [q("d_many", prefix="fil_", opts=MANY), q("d_many", prefix="lab_", opts=MANY), q("d_many", prefix="idx_", opts=MANY)],
     reach=["many", "a result", "searched", "irreversible", "rrset searched", "rdata name searched", "raw rdata searched", "meta searched", "lone wildcard", "left wildcard",
            "right wildcard", "no wildcard"])
prop("C22", "the search handed to the source against address arithmetic",
     [q("d_qip", opts={"unroll": 300}), q("d_whole", entries=["agg_address", "una_address"], opts=WHOLE)]
     + [q("d_many", prefix="ips_", opts=MANY)],
     reach=["many", "a result", "searched", "address searched", "range searched", "bad range", "prefix searched", "bad prefix", "rrtype of address"])
prop("C26", "every seek and skip of a label-filtered search, from an arbitrary entry, against the next matching key",
     [q("d_skip", SSRC, prefix=p, opts={"unroll": 80}) for p in ("drv_rrset_label", "drv_rdata_label")]
     + [q("d_indirect", SSRC, entries=["drv_rrset", "drv_rdata"], opts={"endless": 1500, "unroll": 80}),
        q("d_whole", entries=["agg_rrset_left", "agg_rrset_right", "agg_rdata_left", "agg_rdata_right", "una_rrset_left", "una_rdata_right"], opts=WHOLE)]
     + [q("d_many", prefix="lab_", opts=MANY)],
     reach=["many", "a result", "searched", "skipped", "matching name met", "other name met"])
prop("C27", "acceptance of an arbitrary entry against a reference reading of key and query",
     [q("d_accept", SSRC, opts={"unroll": 60}), q("d_times", opts={"endless": 1500, "unroll": 80}),
      q("d_whole", prefix="agg_", opts=WHOLE)]
     + [q("d_many", prefix="fil_", opts=MANY)], reach=["many", "a result", "searched", "long rdata", "accepted", "rejected", "within limits", "outside limits"])
prop("C28", "every seek and skip of an address search, from an arbitrary entry, against the next matching key",
     [q("d_skip", SSRC, prefix=p, opts={"unroll": 80}) for p in ("drv_ip4_", "drv_ip6_")]
     + [q("d_whole", entries=["agg_address", "una_address", "fen_address"], opts=WHOLE)]
     + [q("d_many", entries=["ips_range"], opts=MANY)],
     reach=["many", "a result", "searched", "skipped", "matching entry met", "other entry met"])

prop("C16", "the sequence of results of a left join of two tables of known keys and unknown values",
     [q("d_joins", ["dnstable/query_mtbl.c", "dnstable/triplet.c"], prefix="drv_ljoin_", opts={"endless": 1500, "unroll": 60}), q("d_joinmany", JSRC, prefix="lj_", opts=MANY)], reach=["joined", "many joined"])
prop("C17", "the sequence of results of removing one table's keys from another's",
     [q("d_joins", ["dnstable/query_mtbl.c", "dnstable/triplet.c"], prefix="drv_remove_", opts={"endless": 1500, "unroll": 60}), q("d_joinmany", JSRC, prefix="rm_", opts=MANY)], reach=["removed", "many removed"])
prop("C19", "when a query stops, over every clock reading and every sequence of results and seeks",
     [q("d_timeout", SSRC, opts={"endless": 1500, "unroll": 80}), q("d_whole", prefix="tim_", opts=WHOLE)],
     reach=["a result", "searched", "continued after timeouts", "timed out", "finished", "result"])
prop("C20", "which results of a search are delivered for an unknown offset",
     [q("d_offset", opts={"endless": 1500, "unroll": 80}), q("d_whole", prefix="off_", opts=WHOLE)]
     + [q("d_many", prefix="off_", opts=MANY), q("d_many", entries=["lab_rrset_one_rr"], opts=MANY), q("d_many", prefix="idx_", opts=MANY)], reach=["many", "a result", "searched", "result", "done", "limited result", "limited done"])
prop("C23", "the predicate of a query whose options were set and cleared again, against a reference reading",
     [q("d_qfilter", SSRC, entries=["drv_cleared", "drv_left"], opts={"unroll": 60}), q("d_qset", opts={"unroll": 80}), q("d_qip", prefix="again_", opts={"unroll": 300})],
     reach=["pass", "fail", "refused", "last name searched", "last rdata searched", "last address searched"])
prop("C18", "the sequence of results of a filtered table for every behaviour of the filter",
     [q("d_fwrap", JSRC, opts={"endless": 1500, "unroll": 60}), q("d_joinmany", JSRC, prefix="fi_", opts=MANY)]
     + [q("d_many", entries=["fil_15"], opts=MANY), q("d_many", entries=["off_300"], opts=MANY)], reach=["many", "many filtered", "filtered", "ended"])
prop("C24", "every counter of a query against counts kept beside it",
     [q("d_stats", SSRC, opts={"endless": 1500, "unroll": 80}), q("d_fstats", opts={"endless": 1500, "unroll": 80})]
     + [q("d_many", prefix="fil_", opts=MANY), q("d_many", entries=["off_439"], opts=MANY)], reach=["many", "counted", "result"])
prop("C25", "every access and every release of an object while a query walks arbitrary entries",
     [q("d_safe", SSRC, opts={"cut": 4}), q("d_safefs", opts={"endless": 1500, "unroll": 80})],
     reach=["result", "no result", "a result of files", "no result of files"])
prop("C29", "the search of the index and the searches it leads to, against the documented index layout",
     [q("d_indirect", SSRC, opts={"endless": 1500, "unroll": 80}),
      q("d_whole", entries=["agg_rrset_right", "agg_rdata_left", "una_rrset_right", "una_rdata_left", "fen_rrset_right1", "fen_rdata_left1", "off_rrset_right", "off_rdata_left"], opts=WHOLE)]
     + [q("d_many", prefix="idx_", opts=MANY)],
     reach=["many", "result", "done", "a result", "searched"])
prop("C14", "what readers search, hand on, and query, for every mix of malformed entries",
     [unit(["dnstable/reader.c", "dnstable/iter.c"], ["drivers/d_reader.c", MDL], opts={"unroll": 1500})], reach=["read", "queried", "long source"])

prop("C30", "every stage, category and result name in both directions; declared, defined and exported functions",
     [unit(["dnstable/util.c"], "drivers/e_util.c", opts={"unroll": 60})],
     custom=[custom.exports], reach=["stages", "categories", "unknown", "exports"])

prop("C31", "the query and the output of the lookup command for every combination of arguments, against the manual",
     [unit(["src/dnstable_lookup.c"], "drivers/e_lookup.c", prefix=p, opts={"unroll": 300})
      for p in ("drv_words", "drv_modes_", "drv_environment", "drv_refused_", "drv_bounds_", "drv_stats_", "drv_number_")],
     reach=["number", "ran", "refused", "printed", "environment", "all settings accepted", "bounded"])
prop("C32", "times given to the lookup command at every format and limit, for every present time",
     [unit(["src/dnstable_lookup.c"], "drivers/e_lookup.c", prefix="drv_time_", opts={"unroll": 300})], reach=["time", "refused"])
prop("C33", "deadlines and reports of the lookup command for every clock and every sequence of timeouts",
     [unit(["src/dnstable_lookup.c"], "drivers/e_lookup.c", prefix=p, opts={"unroll": 300}) for p in ("drv_deadline_", "drv_stats_", "drv_seconds_")],
     reach=["number", "timed out", "in time", "statistics"])
prop("C34", "what the dump command reads and prints for every combination of options, against the manual",
     [unit(["src/dnstable_dump.c"], "drivers/e_dump.c", opts={"unroll": 300}),
      unit(["src/dnstable_dump.c", "libmy/argv.c"], "drivers/e_dump_argv.c", opts={"unroll": 300})], reach=["dumped", "refused"])
prop("C35", "words and expansions of the merge script", [], custom=[custom.merge_script], reach=["script"])
