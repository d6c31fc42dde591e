#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

DLT = "rapiddlt/src/dlt_v1.rs"; BUF = "rapiddlt/src/dltbuffer.rs"; LIB = "matchit/src/lib.rs"
RF = "matchit/src/searchable/readfallbackit.rs"; SE = "matchit/src/searchable/searchit.rs"
GR = "matchit/src/searchable/grepit.rs"; RI = "matchit/src/readit.rs"
AD = "matchit/src/generator/adapter.rs"; RE = "matchit/src/generator/reducer.rs"
GE = "matchit/src/generator/generator.rs"; GB = "matchit/src/generator/groupby.rs"
FG = "matchit/src/fromgenerator.rs"; RIP = "ripdlt/src/main.rs"; DD = "dd_dlt/src/main.rs"

p("C01", "A well-formed log is read back message for message",
  "For any log made of complete DLT v1 messages of any legal length and with any payload (including payloads that embed whole DLT messages or the storage pattern), optionally separated, preceded or followed by bytes that contain no storage pattern, sequential reading yields exactly those messages in file order, each with its true byte offset, length and header and body content. "
  "The iterator without offsets yields the same messages, and reading that starts at a message boundary, or in the bytes between messages, yields exactly the messages from there on.",
  ["inputs"], "all sequences of messages (any header flags, lengths 4..65535, any payload) with any pattern-free filler, and all such start offsets",
  "The tests read a few fixed recordings with message lengths up to 62 bytes and compare only counts; they never compare offsets or contents, nor large messages, embedded patterns or fillers at arbitrary places.",
  [DLT, RF, LIB], [("length-driven stepping with fallback to the next pattern", RF), ("message framing from the length field", DLT)],
  ["dltit", "dltit_offset", "DltStorageEntry::try_read"], [("offset", "next unread byte", RF)])

p("C02", "Arbitrary or corrupted bytes never stop, crash or mislead sequential reading",
  "For every byte buffer and every start offset, sequential reading terminates without panicking and yields exactly the messages given by this rule: find the next storage pattern at or after the current position; if a complete message starts there (its length field is at least the 4-byte standard header and it ends inside the buffer), yield it and continue behind it, otherwise continue behind that pattern. "
  "In particular a corrupted message never hides a later intact one, and yielded messages never overlap and never extend past the buffer. Once the end is reported, it stays reported.",
  ["inputs", "fault_sequences"], "all byte buffers: random, pattern-dense, and logs damaged by any sequence of bit flips, deletions, insertions, truncations and length corruptions; all start offsets",
  "Tests cover one buffer without any message and one file with three text lines between intact logs; no test has a message with a corrupted length followed by intact ones.",
  [RF, DLT, LIB], [("fallback search for the next pattern", RF), ("length validation", DLT)],
  ["dltit_offset", "dltit"], [("offset", "next unread byte", RF)])

p("C03", "Message fields are decoded from exactly where the header flags put them",
  "For every framed message, with every combination of optional-header flags and any body length, the ECU id, timestamp, extended header and payload accessors return exactly the big-endian field or bytes at the position the flags define, and nothing when the flag is absent or the body is too short to hold the field; the storage header's little-endian seconds and microseconds and its ECU are returned as stored. "
  "No accessor panics on any message, and returned payloads and headers are views into the input buffer at the right address.",
  ["inputs"], "all 256 header-type bytes x all body lengths x all body contents",
  "Tests decode two literal messages with one flag combination (timestamp + extended header) and complete bodies.",
  [DLT], [("flag-driven offset computation", DLT)],
  ["DltEntry::ecu_id/timestamp/extended_header/payload", "DltStorageEntry.storage_header"])

p("C04", "Headers built with the library serialise to the wire layout and read back",
  "Every header built with the library's constructors serialises to the DLT v1 wire layout and reads back with identical values: header type for all flag combinations and versions 0-7, message info for every log, application-trace, network-trace and control type with every defined info value, verbose or not, and storage, standard and extended headers with any ids, times, counters and lengths. "
  "Each of the 256 possible message-info bytes decodes to the verbose flag, message type and type info that DLT v1 defines for it (bit 0 verbose, bits 1-3 type, bits 4-7 info), or to no type when type or info is undefined.",
  ["inputs"], "all constructor arguments and all 256 message-info bytes",
  "No test builds a header or decodes a message-info byte.",
  [DLT], [("bit masks and shifts of header type and message info", DLT), ("byte-order wrappers", DLT)],
  ["DltHTyp::new", "MessageType::create_message_type/info/message_type", "DltStorageHeader::new", "DltStandardHeader::new", "DltExtendedHeader::new"])

p("C05", "Partitioning loses nothing and never splits a message",
  "For any buffer and any requested number of partitions of at least one, the returned partitions are non-empty, contiguous, in order and together make up the whole buffer, and no message that sequential reading of the buffer yields is cut by a partition border; reading the partitions one after the other yields exactly the messages of the whole buffer. "
  "The work is really divided: no partition is longer than 1.25 times buffer length / requested number plus the longest message.",
  ["inputs", "configurations"], "all buffers (well-formed, nested, misaligned nested, corrupted, random; messages up to the maximum length) x all partition counts, including counts far above the number of messages or bytes",
  "Tests use three recordings with 4, 215 and 500 partitions, whose sizes happen to divide evenly; no small or oversized message relative to the partition, no misaligned embedded messages.",
  [LIB, BUF, DLT], [("container search moves a cut to a message start", LIB), ("partition loop with remainder handling", LIB), ("maximum message length bounds the backward window", DLT)],
  ["partition_from", "DltBuffer::partition"], [("candidate", "current partition's begin and proposed end", LIB)])

p("C06", "Container search finds the outermost real message around a byte range",
  "For any buffer and any non-empty byte range inside it, the container search returns the message of the sequential reading of that buffer that starts before the range and covers it completely, and nothing if there is no such message; it never returns a message that is merely embedded in, or faked by, another message's payload, at any nesting depth. "
  "Empty, inverted or out-of-buffer ranges give nothing, and the search terminates on every input.",
  ["inputs"], "all buffers, including deeply nested, misaligned and overlapping message images, and all ranges",
  "Only exercised indirectly by three partition tests on aligned embedded messages of two depths.",
  [LIB, DLT], [("backward window of the maximum message length", LIB), ("validity check that a container is not itself contained", LIB)],
  ["ContainedBySearch::contained_by"])

p("C07", "Forward pattern search agrees with sequential reading",
  "For every buffer and every start offset, the forward pattern search yields exactly the messages and offsets given by the sequential-reading rule from that offset (next pattern; complete message there is yielded and skipped as a whole, otherwise continue behind the pattern), for DLT messages and for any other marked record type. "
  "It terminates without panicking on every buffer, and once the end is reported it stays reported.",
  ["inputs"], "all byte buffers, start offsets and record types with a fixed non-self-overlapping marker",
  "Tests repeat one 8- to 16-byte record 2-4 times; no variable lengths, corrupted records, offsets or embedded markers.",
  [SE, LIB], [("SIMD marker search then parse", SE)], ["SearchIterator"], [("offset", "search position", SE)])

p("C08", "Backward pattern search reports every readable message image, latest first",
  "For every buffer and start offset, the backward search yields, in strictly descending order, every position whose pattern lies completely before the start offset and at which a complete message (or other marked record) can be read from the buffer, embedded ones included, each with the record read there; unreadable positions are skipped. "
  "It terminates without panicking on every buffer, and once the end is reported it stays reported.",
  ["inputs"], "all byte buffers, start offsets and record types with a fixed non-self-overlapping marker",
  "Tests walk back over four identical 8-byte records.",
  [SE], [("reverse SIMD marker search then parse", SE)], ["RevSearchIterator"], [("offset", "exclusive upper end of the search", SE)])

p("C09", "Strict reading yields exactly the gapless run of records",
  "For every buffer and start offset, the strict sequential reader yields exactly the records (DLT messages with or without storage headers, or any other record type) that follow each other without gap from the start offset on, each at the offset where the previous one ended, and reports the end at the first position where no complete record starts; it never skips bytes, never panics, and stays at the end once reported.",
  ["inputs"], "all byte buffers and start offsets; DLT messages with or without storage headers, or any other record type",
  "The strict reader has no test at all.",
  [RI, DLT], [("parse at offset, advance by bytes read", RI)], ["ReadIterator"], [("offset", "next unread byte", RI)])

p("C10", "Grep reports exactly the messages that contain a match",
  "For any buffer and any pattern without anchors or look-around, every grep result is a complete message at its reported offset whose bytes behind the storage pattern contain a match that lies entirely inside that message, and offsets strictly increase, so no message is reported twice. "
  "When no storage pattern begins inside a message other than at its start, the results are exactly the messages of sequential reading that contain such a match, also when a leftmost or longest match in the raw data would start before the message or run over into following bytes; a search that starts at a message boundary or between messages reports those from there on. "
  "The search terminates without exhausting the stack for every pattern, including patterns that match the empty string, and for any number of matches outside messages.",
  ["inputs"], "all buffers and all anchor-free patterns (literals, classes, alternations, greedy and lazy repetitions)",
  "Tests grep literal words in fixed recordings and compare counts; patterns that can span messages or match nothing are not tested (the project's own 'H.* World' misses 6% of the generated hello file).",
  [GR, SE], [("regex over raw bytes, then reverse search for the owning message", GR), ("inclusion check of the match in the message", GR)],
  ["GrepIterator", "DltGrepIterator"], [("offset", "end of the last reported message", GR)])

p("C11", "Capture search reports the first capture of every matching message",
  "For any buffer in which no storage pattern begins inside a message other than at its start, and any anchor-free pattern whose first group takes part in every match, the capture search reports exactly once, in order, every message of sequential reading that contains a match, with that message's offset and the absolute byte range of group 1 of the first match inside the message; a search that starts at a message boundary or between messages reports those from there on. "
  "The range always lies inside the message.",
  ["inputs"], "all buffers without embedded patterns and all anchor-free patterns with a mandatory first group",
  "The capture search has no test at all.",
  [GR], [("regex captures over raw bytes, then reverse search for the owning message", GR)], ["RegExMatcherIterator"], [("offset", "end of the last reported message", GR)])

p("C12", "Push pipelines compute what the same stages compute on the whole sequence",
  "For any input sequence and any chain of map, filter, group and merge stages, nested to any depth and feeding a fold, count, sum, collect, split or fork, the push-based result equals evaluating the same stages one after the other on the whole sequence. "
  "What stages hold back (open groups, merged values) is delivered at the end exactly once, in order, and passes through all later stages.",
  ["programs", "inputs"], "all stage chains, all reducers (nested splits and forks included) and all input sequences",
  "Tests fix about a dozen two-stage chains on one short sequence; several only print their result.",
  [AD, RE, GE, GB], [("adapter chaining of adapt and finalize", AD), ("reducers drain adapters on finalize", RE)],
  ["Generator::*", "AdapterTrait::*", "ReducerTrait"])

p("C13", "Grouping emits exactly the maximal runs of the relation",
  "For any sequence and any relation, reflexive or not, transitive or not, grouping emits in order the pair (first, last) of every maximal run of consecutive elements in which each element is related to its predecessor; a run of a single element x is emitted as (x, x) if x is related to itself and is dropped otherwise. "
  "The push-based and the iterator form give the same result, and every element belongs to exactly one run.",
  ["inputs"], "all sequences and all binary relations on the element type",
  "Tests count the groups of one ten-element sequence under >=.",
  [GB, FG], [("three-state run detector", GB)], ["Generator::groupby", "AdapterTrait::groupby", "FromAdaptFnCall::groupby"], [("GroupByState", "open run: none, one element, first and last", GB)])

p("C14", "Split and fork route every element exactly once to the right reducer",
  "Split yields exactly the keys that occur, and each key's result is that of the reducer made for that key over exactly the elements with that key in input order; fork gives both of its reducers every element once in input order. "
  "This holds for any nesting of splits, forks and stages and for the iterator form of split.",
  ["programs", "inputs"], "all key functions, reducers (including key-dependent ones), nestings and sequences",
  "Tests split one twelve-element sequence by identity.",
  [RE, FG, AD, GE], [("ordered map of per-key reducers", RE), ("fork clones the element", RE)], ["Generator::split/fork", "FromAdaptFnCall::split"])

p("C15", "Merging joins everything that belongs together, whatever the order",
  "For a criterion that joins two values exactly when they overlap or share a class (a symmetric relation for which the join of two values relates to whatever either of them relates to) and a key that differs between values which are not joined, merging emits one value per connected group of inputs, equal to the join of all its members, in key order after the input has ended. "
  "The result does not depend on the input order, no two emitted values could still be joined, and nothing is lost, duplicated or invented.",
  ["inputs", "histories"], "all sequences (multisets and arrival orders) of intervals and of class-tagged values",
  "Tests merge one ten-interval sequence and print the result without asserting it.",
  [GB, RIP], [("ordered map of merged values, joined on arrival", GB)], ["Generator::merge", "AdapterTrait::merge"], [("merged values", "values joined so far by key", GB)])

p("C16", "Adapting a stage to an iterator changes nothing but the calling style",
  "For any stage (map, filter, group, merge, or a chain built from them) and any input sequence, the iterator adaptation yields exactly the elements that the push pipeline passes on, in the same order, including those the stage holds back until the end, and then ends.",
  ["programs", "inputs"], "all stages and input sequences",
  "One test counts the groups of one sequence.",
  [FG, GB, AD], [("pull input until the stage emits, then drain finalize", FG)], ["FromAdaptFn", "FromAdaptFnCall"])

p("C17", "Both file access methods expose exactly the bytes of the file",
  "For every readable regular file of any size, empty files included, memory-mapped and buffered access succeed and give exactly the file's bytes with a matching length, so that every analysis gives the same result with both. "
  "A path that cannot be opened, or cannot be read as a file, is reported as an error by both and never taken for an empty log; buffered access reads on after short and interrupted reads and reports a failing read.",
  ["inputs", "configurations"], "all file contents and sizes (around page and buffer sizes and several MB) and unreadable paths",
  "Tests only compare the length of one file for each method.",
  [BUF], [("mmap and BufReader backends behind one enum", BUF)], ["DltBuffer::mmap_file", "DltBuffer::read_file", "DltBuffer::len/as_slice"])

p("C18", "ripdlt's counts and size statistics are exact",
  "With both access methods, 'count', 'histogram_message_size', 'histogram_payload_size' (message size with storage header; no readable payload counts as 0) and 'count_hello_world_raw' (occurrences in the raw file) print, for any buffer, the number of messages sequential reading yields, every occurring size with its exact frequency and its sum and the overall sum in whole kB (bytes/1024), and the number of occurrences of 'Hello World'. "
  "For any log whose messages hold the headers their flags announce, 'histogram_message_type' prints the frequency of every (verbose, type) among messages with an extended header, an undefined type being None, and 'count_hello_world' the number of messages whose payload contains 'Hello World'. "
  "If moreover no message contains a further storage pattern, 'count_hello_world_grepit' and 'histogram_hello_world' print the number, overall and per 100 MB of file offset, of messages that contain a match of 'H.* World'.",
  ["inputs", "configurations"], "all buffers and all logs of complete messages with any filler, both access methods, all commands",
  "ripdlt's commands are not run by any test.",
  [RIP, DLT, GR, FG], [("iterator + split/count pipelines", RIP)], ["ripdlt command line output"])

p("C19", "ripdlt's lifecycle and continuity statistics follow the runs in the log",
  "For any log of messages that hold the headers their flags announce and have textual ECU ids: 'histogram_timestamp' prints, per duration in seconds, the number of maximal runs of consecutive messages with non-decreasing storage seconds; 'histogram_lifecycles' prints, per 10000-tick bucket, the number of maximal runs of consecutive timestamped messages with equal message ECU id and non-decreasing timestamp. "
  "'iter' prints how many maximal runs of timestamped messages with non-decreasing timestamp last at least 18000000 ticks, 'itertools' how many pairs of consecutive timestamped messages are that far apart. "
  "Per storage ECU, 'split_lifecycles' prints the bucketed durations of its own timestamp runs and the number of its timestamped messages, and 'split_timestamp' prints the durations of its storage-second runs after all overlapping runs have been joined, and its number of messages.",
  ["inputs", "configurations"], "all logs of complete messages with textual storage ECUs, interleaved ECUs, arbitrary clock jumps, both access methods",
  "One test checks 'iter' on one recording; the other commands are not run.",
  [RIP, GB, RE, FG], [("groupby/merge/split/fork pipelines", RIP)], ["ripdlt command line output"])

p("C20", "Parallel analysis gives the sequential answer at any degree of parallelism",
  "For any log of messages that hold the headers their flags announce (textual ECU ids) and any number of available CPUs, 'par_count' and 'par_count_hello_world' print the same number as their sequential counterparts, as do 'par_count_hello_world_grepit' on logs without further storage patterns inside messages and 'par_count_hello_world_raw' on logs without filler bytes; 'par_split_timestamp' gives the same ECUs and per-ECU message totals as 'split_timestamp'. "
  "'par_histogram_timestamp' and 'par_split_timestamp' print exactly the key-wise sum of the sequential results of the partitions, and 'par_iter' exactly the sequential 'iter' result of every partition, whatever the thread schedule.",
  ["inputs", "schedules", "configurations"], "all logs (nested and misaligned nested payloads included) x 1..200 CPUs x thread counts and schedules",
  "No test runs a parallel command; partition tests cover evenly dividing recordings only.",
  [RIP, LIB, BUF], [("partition, map and reduce with rayon", RIP)], ["ripdlt command line output under varied CPU counts, affinities and thread counts"])

p("C21", "dd_dlt wraps its input losslessly into a valid log",
  "For any input and any payload size from 1 to 65517, dd_dlt writes exactly floor(input length / payload size) complete DLT messages of version 1 whose payloads concatenate to the input (without the incomplete remainder), the i-th carrying the given ECU in its storage header, the given id as application and context id, verbose log-info type, counter i mod 256, timestamp 100*i (modulo 2^32) and storage time i*10 ms, and reports that number; its output is read back message for message, also when the input is itself a DLT log. "
  "A payload size for which no valid message exists (0 or above 65517) is rejected without writing anything, and an error of the input or the output ends in a failing exit.",
  ["inputs", "configurations"], "all inputs (any bytes, newlines and DLT logs included, any length) and payload sizes",
  "dd_dlt has no tests; the test data uses sizes 11, 45 and 158.",
  [DD, DLT], [("read_exact loop, header constructors, stdout writes", DD)], ["dd_dlt standard output, error output and exit status"])

p("C22", "Truncating or concatenating logs changes only what it must",
  "If a log or any other buffer is cut at any byte, reading the rest first yields, unchanged, all messages that end before the cut; messages that were complete never change or disappear because the tail is missing. "
  "Reading the concatenation of two logs that each end at a message boundary yields the messages of the first followed by those of the second shifted by the first's length, for sequential reading, forward search and partitioned reading alike.",
  ["crash_points", "inputs"], "all buffers x all cut positions; all pairs of logs",
  "Tests read only complete recordings; large test files are concatenations but only counts are compared.",
  [RF, SE, LIB, DLT], [("a message is complete only if it ends inside the buffer", DLT)], ["dltit_offset", "SearchIterator", "partition_from"])

p("C23", "Degenerate and large inputs are handled without crash, hang or deep recursion",
  "Every reading and searching entry point (sequential, strict, forward, backward, grep, capture, container search, partitioning, field access) terminates without panic, stack exhaustion or non-termination on buffers of several megabytes of any repetitive content: no pattern at all, only patterns, only corrupted messages, only minimal messages, endless overlapping or nested message images, and matches everywhere outside messages. "
  "Results still obey the respective rule on such buffers.",
  ["inputs"], "repetitive buffers of up to several MB built from any repeated unit, any regex out of the pattern family, any offset",
  "Large test files are all well-formed recordings.",
  [RF, SE, GR, LIB, RI, DLT], [("iteration without recursion per byte or match", SE)], ["all iterators", "ContainedBySearch", "partition_from"])

p("C24", "Answers depend only on the bytes and arguments given",
  "The result of every read, search, container search, partitioning, field access and pipeline is a function of the given slice, record type, start offset and other arguments. It does not depend on where the slice lies in memory, on the bytes in front of it or behind it, on what that memory held before, on what was computed before, on other iterators, searches or pipelines in use at the same time, over the same or other buffers and record types, nor on other threads. "
  "Nothing outside the slice is read.",
  ["inputs", "schedules", "histories"], "all slices of all buffers at all addresses, all interleavings of any number of iterators, searches and pipelines, all sequences of uses of the same memory",
  "Tests run one computation at a time over a whole file.",
  [LIB, RF, SE, GR, RI, DLT, GB, RE, FG], [("all state lives in the iterator, search or reducer", RF), ("searchers are built per record type", SE), ("wire structures are views of checked slices", DLT)],
  ["all iterators", "ContainedBySearch", "partition_from", "Reducer"])

p("C25", "A tool that ends successfully has delivered its complete result",
  "For every log a command can be used on, every ripdlt command, access method and behaviour of input and output (short and interrupted transfers, reads or writes that fail once or for good, a pipe without reader, a full device): if ripdlt exits successfully, it has printed its complete result, the same as without faults; if the output cannot take all of it, the exit fails. The same holds for what dd_dlt writes. "
  "An unknown command or access method ends in a failing exit without any result, and too few arguments of either tool in the usage text. "
  "dd_dlt writes nothing and fails when the payload size is no number in its range, or when an id is not four bytes long and there is a message to write.",
  ["inputs", "fault_sequences"], "all logs, all commands and both access methods, every fault position in input and output, all argument lists",
  "No test runs the tools as programs.",
  [RIP, DD], [("results are printed line by line, errors of which are fatal", RIP), ("arguments are checked before anything is written", DD)], ["main"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
