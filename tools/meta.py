#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], observe_at
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               hook_needed=None)))


prop("C01", "A started client publishes a well-formed MMV file",
     "For every set of registered metrics and instance domains, the file present after Start returns is exactly as long as its sections need, its header carries the MMV tag, the version, two equal non-zero generations, the requested flags, the process id and the cluster id, and its table of contents lists each non-empty section (metrics and values always) exactly once with the right count and offset. The sections lie inside the file, do not overlap each other, the header or the table of contents, and every offset stored in the file points at the start of a record of the right section or is zero where none is meant (the offset of a section or of an instance run that has no records means nothing).",
     ["inputs", "configurations"], "Every ordered pair of the 15 metric kinds with and without descriptions in both format versions and with arbitrary initial values; registries of one metric or none with every flag value; with C03 also domains of 0 to 3 instances.",
     "The tests inspect a handful of fixed registries; any combination of kinds, descriptions, empty domains and format versions can be registered and the layout arithmetic differs for each.",
     ["client.go", "registry.go"], [("layout arithmetic", "client.go Length, start, tocCount"), ("table of contents", "client.go writeTocBlock")],
     ["bytes of the file in <tmp>/mmv"])

prop("C02", "Metric metadata in the file is exactly what was declared",
     "After Start the file has exactly one metric record for every registered metric and none besides, carrying its exact name, item id, type, semantics, unit and instance domain id (or the no-instance-domain marker), a zero pad, and its short and long descriptions byte for byte, or a zero offset for each description that is empty.",
     ["inputs"], "Names of 1, 2, 63, 64, 255 and 256 arbitrary bytes, descriptions of 0, 1, 255 and 256 arbitrary bytes, every type, every semantics value and unit word; every metric kind and the string form in both versions; up to 3 metrics.",
     "The tests check fixed names and descriptions of a few metrics.",
     ["client.go", "metrics.go"], [("metric record", "client.go writeMetricDesc")], ["bytes of the file in <tmp>/mmv"])

prop("C03", "Instance domains and instances in the file are complete and consistent",
     "After Start the file has exactly one record per registered instance domain, with its id, its number of instances, the offset of a contiguous run of exactly its own instances, and its descriptions; each instance record names its instance byte for byte, carries the instance's id, and points back at its domain. For a metric over a domain there is exactly one value per instance, each pointing at that metric and at the record of that instance in the domain the metric names.",
     ["inputs", "configurations"], "Up to 3 domains of 0 to 3 instances used by 0 to 2 metrics each in both versions; instance names of 0, 1, 63, 64 and 256 arbitrary bytes; domains given as the same object, as equal objects or by string.",
     "Tests use one or two domains with fixed instances; cross references depend on the layout and on iteration order of several maps.",
     ["client.go", "instance_domain.go", "instance.go"], [("domain and instance records", "client.go writeInstanceDomain, writeInstance, writeInstanceMetric")], ["bytes of the file in <tmp>/mmv"])

prop("C04", "Initial values are published exactly",
     "After Start each value record of the file decodes, under its metric's type, to exactly the value the metric or instance currently holds, whether set at construction or updated before Start; a string value's record carries the offset of a string slot of its own holding exactly the string, zero padded.",
     ["inputs"], "Every metric kind with any initial value (every 32 and 64 bit pattern; strings of 0, 1, 2, 255, 256 arbitrary bytes) and up to 2 updates before Start; instance metrics of every type with 1 to 3 instances.",
     "Tests publish a few constants per type.",
     ["client.go", "metrics.go", "bytewriter/bytewriter.go"], [("value record", "client.go writeValue, newupdateClosure")], ["bytes of the file in <tmp>/mmv"])

prop("C05", "Every update reaches the file and changes nothing else",
     "While a client is mapped, after any successful update of a metric or instance the file's value record (or string slot, zero padded) decodes to exactly the value the metric now reports (a NaN decodes to a NaN), and no other byte of the file differs from before the update. A rejected update changes neither the file nor the reported value.",
     ["inputs", "histories"], "Every metric kind with any initial value between two neighbours in both versions, 1 or 2 updates by any operation with any arguments; 2 (thorough: 3) string updates of lengths 0, 1, 2, 255, 256 and 257; sequences of 2 (thorough: 3) sets over two metrics and any instances.",
     "Tests apply a few constants to isolated metrics and compare one field.",
     ["metrics.go", "client.go", "bytewriter/bytewriter.go"], [("update closures", "metrics.go newupdateClosure, set, setInstance")], ["bytes of the file in <tmp>/mmv", "Val, ValInstance"])

prop("C06", "No string ever spills out of its slot",
     "No metric name, instance name, description or string value accepted by any constructor or update ever occupies bytes outside its own slot in the file: whatever is too long for its slot (256 bytes) is rejected with an error, and everything up to that length is accepted and stored unchanged.",
     ["inputs"], "Strings of 63, 64, 255, 256, 257, 300 and 512 arbitrary bytes in every position a string can be given, in construction and updates.",
     "Tests try short strings and one over-long name.",
     ["metrics.go", "instance_domain.go", "client.go"], [("length checks", "metrics.go newpcpMetricDesc, IsCompatible; instance_domain.go NewPCPInstanceDomain")], ["constructor errors", "bytes of the file in <tmp>/mmv"])

prop("C07", "The format version follows from the longest name alone",
     "The published file is version 2 if some registered metric name or some instance name of a registered domain is longer than 63 bytes, and version 1 otherwise, regardless of the order or the way (object, domain, string) in which they were registered. In either version names are stored completely.",
     ["inputs", "histories"], "Three registrations in any of the ways and orders with names of 1, 62, 63, 64 and 256 bytes; metric and instance names of every length from 60 to 66 bytes.",
     "Tests register one long name in one way.",
     ["registry.go", "client.go"], [("version switch", "registry.go addMetric, AddInstanceDomain")], ["bytes of the file in <tmp>/mmv"])

prop("C08", "A half-written file is never accepted by a reader",
     "If the process dies at any moment while a client is starting, the file left behind is either absent, or rejected by the dump reader, or complete: a reader never takes a partially written file for a valid one. In particular the two generation numbers become equal only after everything else has been written.",
     ["crash_points", "schedules"], "Every set of stores to the mapped file that the happens-before order allows to have been done, over registries with up to 3 metrics of every kind; every file system operation of Start; with and without an old file.",
     "Tests only look at files after Start has returned.",
     ["client.go", "bytewriter/memorymappedwriter.go", "mmvdump/mmvdump.go"], [("second generation written last", "client.go start"), ("generation comparison", "mmvdump/mmvdump.go readHeader")], ["the file as a reader sees it at the crash point"])

prop("C09", "Start gives the same kind of file under every schedule",
     "Under every interleaving of the goroutines Start uses internally, Start terminates without deadlock, panic or data race, and the resulting file is well formed with every metric, value, instance and string published exactly once and unshared.",
     ["schedules"], "All schedules (up to partial order equivalence) of Start over registries of up to 3 metrics and 2 domains of up to 2 instances, every metric kind, every mix of descriptions, both versions, also on a second Start.",
     "A test run samples one schedule of the goroutines per run.",
     ["client.go"], [("offset channels and wait groups", "client.go start and write*")], ["bytes of the file in <tmp>/mmv"])

prop("C10", "Client life cycle: refused operations, stop, restart",
     "While a client is mapped, registering a metric or domain and changing the flags are refused with an error and have no effect; Stop on a client that is not mapped is an error, and after Stop the client can be changed and started again, publishing a complete file for its current registry. Stop removes the file exactly when erasing is requested, updates of metrics after Stop succeed, are kept in the metric, touch no released memory and are published by the next Start, and no descriptor or mapping remains once a client is stopped.",
     ["histories"], "All sequences of 3 (thorough: 4) operations out of Start, Stop with and without erasing, three registrations, SetFlag and updates with any values; of 5 (6) over a smaller alphabet; every refused change at 4 points of a history for every kind.",
     "Tests run one fixed start/stop sequence.",
     ["client.go", "registry.go", "bytewriter/memorymappedwriter.go"], [("mapped flag", "registry.go mapped"), ("Stop", "client.go Stop")], ["return values", "file system", "open descriptors and mappings"])

prop("C11", "A failing system call never leaves a broken client behind",
     "If any file system or mapping operation fails during Start or Stop, the operation returns an error without panicking or deadlocking; a failed Start leaves the client stopped with no open descriptor, no mapping and no new file claiming to be valid (a complete file of an earlier run may remain if it could not be removed), and it can be corrected and started again. A failed Stop never leaves the client able to write to released memory.",
     ["fault_sequences"], "A failure at every file system, mapping and unmapping operation of Start and Stop, up to 2 (thorough: 3) failures per Start, any number per Stop, with a retry afterwards, with and without an old file.",
     "Tests never make a system call fail.",
     ["client.go", "bytewriter/memorymappedwriter.go"], [("error paths", "bytewriter/memorymappedwriter.go NewMemoryMappedWriter, Unmap; client.go Start, Stop")], ["return values", "file system", "open descriptors and mappings"])

prop("C12", "Registry counts and lookups match what was registered",
     "After any sequence of registrations, successful or refused, the registry's metric, value, instance domain, instance and string counts equal those computed from the successfully registered metrics and domains, the lookups answer true exactly for registered names, and a second registration of a metric name or domain name is refused. A metric whose domain name is already registered is accepted only if the domains have the same instances.",
     ["histories", "inputs"], "All sequences of 2 (thorough: 3) registrations in every way with any one-letter names, five instance lists and 0 to 2 descriptions; of 4 over a smaller alphabet; names on both sides of 63 bytes.",
     "Tests register a few fixed objects.",
     ["registry.go"], [("counters", "registry.go addMetric, AddInstanceDomain")], ["registry getters"])

prop("C13", "Concurrent registrations behave as if done one at a time",
     "When several goroutines register metrics, domains and metric strings on one registry, or register while a client starts, the outcome equals that of some sequential order: each name is registered at most once and exactly one of several competing registrations succeeds, the counts match, a client started afterwards publishes a consistent file, and there is no data race, deadlock or panic.",
     ["schedules"], "All schedules of 2 goroutines doing one of ten registrations each (3 goroutines out of five), and of a registration against every getter, Start and Stop, and of Start, Stop and SetFlag against each other.",
     "Tests register from one goroutine.",
     ["registry.go", "client.go"], [("registry locks", "registry.go AddMetric, AddInstanceDomain")], ["registry getters", "return values", "file"])

prop("C14", "Values are accepted exactly when representable and stored exactly",
     "A value is accepted for a metric type, at construction and on every update, exactly when its Go type is that of the metric type (a string up to 256 bytes), or it is an int in the range of an integer metric type, a uint in the range of an unsigned one, or a float64 in the range of a float one; what the metric then reports has the metric's Go type and the same numeric value (a float64 given to a float metric is rounded to float32). Anything else is refused with an error and leaves the metric unchanged.",
     ["inputs"], "Every 32-bit type code against values of 29 Go types, each with every value (strings up to the limit), at construction through every constructor and on updates of singleton and instance metrics, mapped or not.",
     "Tests use tables of constants.",
     ["metrics.go"], [("compatibility", "metrics.go IsCompatible, resolve")], ["return values", "Val, ValInstance"])

prop("C15", "Counters never go backwards",
     "No sequence of operations on a counter or on an instance of a counter vector ever makes its reported or published value smaller: a set to a smaller value, a negative increment and an increment that would overflow are refused with an error and change nothing, and every accepted set or increment has exactly its arithmetic effect.",
     ["inputs", "histories"], "Any starting value and 2 (thorough: 3) operations with any arguments, mapped or not, on counters and on vectors of 2 instances.",
     "Tests use small constants; overflow needs values near the maximum.",
     ["metrics.go"], [("monotonicity checks", "metrics.go PCPCounter, PCPCounterVector")], ["Val", "file"])

prop("C16", "Gauges follow float64 arithmetic exactly",
     "After any sequence of set, increment and decrement a gauge or gauge vector instance reports (and a mapped file holds) exactly the float64 obtained by applying the same operations in order, and the all-instances forms act on every instance once.",
     ["inputs", "histories"], "Any float64 start and any float64 arguments (NaN and infinities included), 2 (thorough: 3) operations, mapped or not, on gauges and on vectors of 2 instances.",
     "Tests use a few constants.",
     ["metrics.go"], [("gauge operations", "metrics.go PCPGauge, PCPGaugeVector")], ["Val", "file"])

prop("C17", "Timers accumulate elapsed time in their unit",
     "A timer accepts only alternating start and stop, its reported and returned value is the sum of the elapsed times of its completed runs expressed in its unit (to a relative error of 1e-12, measured on the monotonic clock), and reset is refused while running and otherwise sets it to zero; a refused operation changes neither the value nor whether it is running.",
     ["inputs", "histories"], "All sequences of 4 (thorough: 5) operations, every time unit, arbitrary non-decreasing clock readings up to 36 years, published before, during or after.",
     "Tests sleep for one short period.",
     ["metrics.go"], [("timer state", "metrics.go PCPTimer")], ["return values", "Val"])

prop("C18", "Histograms publish the statistics of what was recorded",
     "A histogram accepts every value from 0 to its highest trackable value and refuses negative ones and those its buckets cannot hold, and after any sequence of recordings its minimum, maximum, mean, variance and standard deviation, as reported and as published in the file, are those of the recorded values at the histogram's resolution (variance being the square of the standard deviation); a refused recording changes nothing. High and Low report the highest and lowest trackable value, construction clamps its arguments to the documented limits, percentiles and buckets describe the recorded values.",
     ["inputs", "histories"], "Several ranges and precisions with 1 recording of any int64 in every form (any count from 0); a histogram of 32 classes with 2 (thorough: 3) recordings of any values; construction with any upper limit.",
     "Tests record fixed values.",
     ["metrics.go"], [("instance updates", "metrics.go PCPHistogram.update"), ("limits", "metrics.go normalize")], ["getters", "file"])

prop("C19", "Concurrent metric operations are atomic",
     "When several goroutines operate on one metric, each operation takes effect at one moment: the final reported and published values are those of some sequential order of the same operations (no increment is lost), every read returns a value some such order produces, and there is no data race or deadlock, also while a client using the metric starts or stops. The all-instances forms of vectors count as one operation per instance.",
     ["schedules"], "All schedules of 2 goroutines doing one operation each out of all operations of every metric kind, published or not, of 2 operations against 1 (thorough: 3 goroutines), and of every operation against Start and Stop.",
     "Tests run goroutines in one sampled schedule, without the race detector.",
     ["metrics.go", "client.go"], [("per-metric mutex", "metrics.go")], ["Val", "file"])

prop("C20", "Composed units encode every dimension and scale",
     "A unit composed from space, time and count parts, in any order and from any starting unit, has as its PMAPI word exactly the given dimensions (two's complement nibbles) and scales, and its accessors give back the same dimensions and scales; a later part of the same kind replaces the earlier one (on a plain unit constant a part of its own kind panics), a dimension outside -8..7 panics. Its printed form names each part with its dimension in the order space, time, count.",
     ["inputs"], "Every unit constant and a new unit with up to 3 (thorough: 4) parts of any 8-bit dimension and any scale; printed forms of every unit with 1 (2) parts added.",
     "Tests compose two examples.",
     ["metrics.go"], [("bit packing", "metrics.go metricUnit")], ["PMAPI, SpaceDim, SpaceScale, String and so on", "unit word in the file"])

prop("C21", "Ids are the truncated FNV-1a hash of the name",
     "The id of every metric, instance domain, instance and client (cluster id) is the 32-bit FNV-1a hash of its name truncated to 10, 22, 32 and 12 bits respectively, so it depends on the name alone and is the same in every process and in the published file.",
     ["inputs"], "Metric, domain and instance names of 1 to 4 arbitrary bytes or of 62 and 82 bytes with arbitrary ones in them; every metric kind with names up to 2 bytes; client names up to 3 bytes.",
     "Tests check ids of a few names.",
     ["speed.go", "metrics.go", "instance_domain.go", "instance.go", "client.go"], [("hash", "speed.go hash")], ["ID", "file"])

prop("C22", "Metric strings are parsed by their documented grammar",
     "A metric string is accepted exactly when it is dotted words of Unicode letters, digits and underscores with at most one bracketed, comma separated (optionally one white space character after the comma) list of words; accepted, the metric is named by the string without the bracket, its domain by the part before the bracket, and its instances are the listed words, and otherwise nothing is registered.",
     ["inputs"], "All ASCII strings up to 8 (thorough: 10) bytes, all ends of 5 (8) ASCII bytes after the start of an instance list, and sequences of 2 (3) characters from a list of 16 ASCII, Unicode and invalid ones at every position.",
     "Tests use a table of strings.",
     ["registry.go"], [("grammar", "registry.go parseString")], ["AddMetricByString", "registry getters"])

prop("C23", "Instances of a metric are isolated from each other",
     "Setting or incrementing one instance of an instance metric or vector changes the reported and published value of that instance only; a name that is not an instance is refused by every reading and writing operation without any change, and construction succeeds exactly when a compatible value is given for every instance of the domain and for nothing else.",
     ["inputs", "histories"], "1 to 3 instances with any one-byte names, any target name up to 1 (thorough: 2) bytes, 1 (2) operations with any arguments, never mapped, mapped or stopped; two metrics over equal instances; construction from any values for any names over 0 to 2 (3) instances.",
     "Tests use fixed instance names.",
     ["metrics.go", "instance_domain.go"], [("instance lookup", "metrics.go pcpInstanceMetric")], ["ValInstance, Val", "file"])

prop("C24", "Byte writers write exactly the requested bytes or fail",
     "For any buffer, data and offset, a write succeeds exactly when the data fits at that offset, then stores the data (little endian for numbers) there and returns the offset after it, changing no other byte; otherwise it returns an error (the must forms panic) and changes nothing. A writer over a mapped file has exactly the requested size, starts zeroed, and everything written is in the file.",
     ["inputs"], "Buffers of 0 to 17 bytes, data of 0 to 8 bytes, every 64-bit offset, every value of every type, plain and must forms; mapped files of 1 to 6 bytes.",
     "Tests write a few constants at valid offsets.",
     ["bytewriter/bytewriter.go", "bytewriter/memorymappedwriter.go"], [("bounds check", "bytewriter/bytewriter.go Write")], ["Bytes, return values", "mapped file"])

prop("C25", "A client touches only its own file in the MMV directory",
     "Whatever name a client is given, either its creation is refused or its file lies directly inside the mmv directory of the temporary directory (configured by PCP_TMP_DIR under the PCP root, or the system one) under exactly that name, and starting and stopping it creates, truncates or removes nothing else except missing parent directories.",
     ["inputs", "configurations"], "All names of up to 4 (thorough: 6) arbitrary bytes and longer names with arbitrary start and end, stopped with or without erasing, in an empty or populated directory, for several configured directories and roots.",
     "Tests use plain names.",
     ["client.go", "bytewriter/memorymappedwriter.go"], [("location", "client.go mmvFileLocation")], ["file system"])

prop("C26", "Dump is total: it returns data or an error on any input",
     "For every byte slice whatsoever, the dump reader returns either an error or a result; it never panics, deadlocks, reads outside the slice, races, or allocates memory out of proportion to the input, and it accepts no file whose tag is not MMV (first three bytes) or whose generations differ.",
     ["inputs", "schedules"], "Every byte slice of up to 100 (thorough: 320) bytes with at most one section, of up to 150 (200) bytes with up to 2 (3), of up to 600 (900) with one section of strings; all schedules over files with two sections of 1 or 2 records.",
     "Tests dump valid files and a few truncations.",
     ["mmvdump/mmvdump.go"], [("bounds checks", "mmvdump/mmvdump.go read*")], ["Dump"])

prop("C27", "Dump returns exactly what the file contains",
     "For a file the dump reader accepts, every returned record is keyed by its offset and equals field by field the little endian bytes at that offset, each section has exactly the records its table of contents entry announces, and dumping what a client published gives back the registered metrics, values, instances, domains and strings.",
     ["inputs"], "Every byte slice of up to 296 (thorough: 600) bytes that is accepted with one section, of up to 108 (150) bytes with two; files of all five sections with arbitrary records; files published by clients with every kind of metric and any values.",
     "Tests compare a few fields of stored files.",
     ["mmvdump/mmvdump.go", "mmvdump/pcp.go"], [("record decoding", "mmvdump/mmvdump.go read*")], ["Dump"])

prop("C28", "Printing a dump never crashes and shows every record",
     "For everything the dump reader accepts, printing it terminates without a panic, either with an error or with output that lists every table of contents entry and every record of it with the names and texts it refers to; for files published by a client it succeeds and the output names every metric with its value.",
     ["inputs"], "What is accepted of every byte slice of up to 200 (thorough: 400) bytes with one section; files of all five sections with arbitrary records and references; a failing writer; files published by clients with every kind of metric. Printed units have no dimension here (C29 prints them).",
     "Tests print stored files.",
     ["mmvdump/writer.go", "mmvdump/pcp.go"], [("cross reference lookups", "mmvdump/writer.go write*")], ["output of Write"])

prop("C29", "Values and units decode to what the file format says",
     "Decoding a raw value under a type gives exactly the int, unsigned, float or double its bits encode and an error for every other type, and the unit decoder gives the scales and signed dimensions of any 32-bit unit word, agreeing with what the client encodes; its printed form is the scale name of each non-zero dimension in the order space, time, count, with its exponent if it is beyond 1, the negative ones after a slash, and depends on nothing else; the named semantics, types and units of the reader are those of the client.",
     ["inputs"], "Every 64-bit raw value with every 32-bit type code, every 32-bit unit word, every unit of 2 (thorough: 4) parts a client composes, printed forms of every dimension and scale of each kind next to several of the others.",
     "Tests decode a few constants.",
     ["mmvdump/mmvdump.go", "mmvdump/pcp.go"], [("decoders", "mmvdump/mmvdump.go FixedVal; mmvdump/pcp.go Unit")], ["FixedVal, Unit methods"])

prop("C30", "The PCP configuration is read line by line as KEY=value",
     "At start-up exactly the lines of the configuration file that have the form KEY=value (upper case letters, digits and underscores) define entries, the value being the rest of the line and later lines winning; comments and other lines define nothing (lines up to 64 KiB, a carriage return before the line end does not belong to the line), a missing file leaves the defaults, and the file's location follows PCP_CONF or else PCP_DIR.",
     ["inputs", "configurations"], "Files with a line of one of ten forms with up to 14 arbitrary ASCII bytes in one place and up to 1 (thorough: 2) lines around it, with and without a final line end; every combination of the environment variables.",
     "Tests read the installed configuration, or none.",
     ["config.go", "speed.go"], [("line pattern", "config.go initConfig")], ["the directory used by clients"])

prop("C31", "Clients are independent of each other",
     "Two clients with different names and registries can be created, started, updated and stopped in any order or concurrently: each file is what its client would publish alone, updates through one never show in the other's file, and stopping one does not disturb the other.",
     ["histories", "schedules"], "All sequences of 3 (thorough: 4) of Start, Stop, update and registration over two clients with any update values; a fixed history for every pair of metric kinds; all schedules of one operation of each, with shared domains and histograms.",
     "Tests use one client at a time.",
     ["client.go", "speed.go"], [("per client state", "client.go PCPClient; speed.go histogramIndom")], ["both files"])

prop("C32", "Refused operations change nothing",
     "A registration that is refused, for any reason and at any step (bad string, incompatible value, missing or extra instance, duplicate name, conflicting domain, active mapping), leaves the registry exactly as it was: no metric, domain or count is added and the next Start publishes the same file as without it.",
     ["inputs", "histories"], "Registries of 0 to 2 entries of three forms and one registration refused for each of the reasons, with arbitrary values; every pair of registrations over clashing names; every registration on a started client.",
     "Tests check only that an error is returned.",
     ["registry.go", "metrics.go"], [("validation before insertion", "registry.go AddMetric, addInstanceMetricByString")], ["registry getters", "file"])

LEVEL_NOTE = ("Bounded symbolic execution of the real Go code (SSA regenerated from /repo on every run): within the bounds listed in the evidence file's "
              "harness_bounds an SMT solver decides every assertion for all values; nothing is claimed outside them. Trusted: the executor's Go semantics "
              "(sampled paths are replayed against the compiled code on every run), the models of the file system, mmap, fmt, sort and encoding/binary, and z3.")

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    have = set()
    for fn in glob.glob(os.path.join(ROOT, "harness", "h*", "*.go")):
        have |= set(re.findall(r"(?m)^func (C\d\d)_\w+\(\)", open(fn).read()))
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in have:
            checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                               technique="bounded symbolic execution of the Go SSA with SMT (z3)", level="model_checking", level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "the check is not built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
