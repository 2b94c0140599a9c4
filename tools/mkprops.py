#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: one entry per property (kept readable here, one JSON line there)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

LIB = "pwned-lib/"
p("C01", "A lookup reports exactly the count stored for that hash",
  "For every database of whole records sorted by hash, and every hash or password, a lookup (plain, 'smart' or by password) reports the count stored with that hash when the database contains it, and 0 when it does not.",
  ["inputs", "histories"], "all sorted databases (any size, including empty and one record) and all 2^128 hashes",
  "the two inspector tests use one 10000-record database and 20000 hashes, none below the first or above the last record, and look only at whether the count is 0",
  [LIB+"passwordinspector.cpp", LIB+"passwordhashandcount.hpp", LIB+"hash.hpp"],
  [("binary search over byte offsets", "PasswordInspector::binsearch"), ("interpolated wrapper", "PasswordInspector::smart_binsearch"), ("record read", "PasswordHashAndCount::read")],
  observe=["PasswordInspector::binsearch/smart_binsearch/lookup return value"])
p("C02", "A lookup does not depend on earlier lookups",
  "The answer to a lookup depends only on the database, the index and the hash asked for: no sequence of earlier lookups on the same open database, whatever their hashes or outcomes, changes it.",
  ["histories"], "all sequences of lookups on one open database or index",
  "the tests look hashes up that lie inside the database; a read past the end of a file puts the shared stream into a failed state that only a later lookup shows",
  [LIB+"passwordinspector.cpp", LIB+"passwordhashandcount.hpp", LIB+"hash.hpp"],
  [("stream state is reset before each positioned read", "PasswordHashAndCount::read(f,pos), Hash::read(f,pos), index reads in binsearch")],
  [("mInputFile/mIndexFile", "streams shared by all lookups of one inspector", LIB+"passwordinspector.hpp")])
p("C03", "An index never changes an answer and never hangs a lookup",
  "With an index that pwned-index built from the same database, for any index width it accepts, every lookup returns the same count as without the index. It always terminates, also when buckets are empty below, above or around the hash asked for.",
  ["inputs", "configurations"], "all databases, all accepted index widths, all hashes",
  "no test builds or uses an index",
  ["pwned-index/index.cpp", LIB+"passwordinspector.cpp"],
  [("index writer", "pwned-index main"), ("index reader", "PasswordInspector::open(input,index), binsearch")],
  [("index entry", "offset of the first record of a bucket; all ones = empty bucket", "pwned-index/index.cpp")])
p("C04", "Hashes have one total order, and every step uses it",
  "For any two hashes of equal validity exactly one of <, == and > holds, this is the order of their 32-digit hex texts, and !=, <= and >= agree with it. The comparators used for counting, sorting, merging and record comparison impose this same order (the merge queue delivers the smallest first).",
  ["inputs"], "all pairs of 128-bit hashes",
  "test_hash compares one hash with a handful of neighbours and never compares equal hashes with !=",
  [LIB+"hash.hpp", LIB+"passwordhashandcount.hpp", "pwned-merger-cli/mergeoperation.cpp"],
  [("comparison operators", "pwned::operator==,!=,<,<=,>,>= on Hash"), ("comparators", "HashLess, PasswordHashAndCountLess, merger::SmallestHashFirst")])
p("C05", "Hash text and password digests are faithful",
  "A text is accepted as a hash exactly when it consists of 32 hex digits of either case, and then denotes the hash with these digits; any other text is marked invalid. Printing a hash gives its 32 digits with leading zeros in the requested case, and the hash of a password is the MD5 of all its bytes, including zero bytes.",
  ["inputs"], "all strings, all hashes",
  "test_hash never feeds 32 characters that are not all hex digits, never prints in upper case and hashes no password with a zero byte",
  [LIB+"hash.cpp", LIB+"hash.hpp", LIB+"util.cpp"],
  [("hex parser", "Hash::fromHex, decodeHex, hexToCharSeq"), ("printer", "Hash::toString, operator<<"), ("digest", "Hash::Hash(const std::string&)")])
p("C06", "All tools agree on the record format",
  "A record is 16 hash bytes (upper then lower half, as held in memory) followed by the 4-byte count; whatever is written is read back as the same hash and count. Reading reports success only when a whole record could be read, and a positioned read starts exactly at the position asked for.",
  ["inputs", "fault_sequences"], "all records, all truncation points of a file",
  "test_phc reads one record and never writes one; truncation is tried at one point only",
  [LIB+"passwordhashandcount.hpp", LIB+"hash.hpp", "deprecated/be2le/be2le.cpp"],
  [("reader and writer", "PasswordHashAndCount::read/dump, Hash::read")])
p("C07", "The converter counts every password line exactly once",
  "Each input line that carries a password (not empty, at most 200 characters) adds exactly 1 to the count of that password's hash in the converter's output, and no other line adds anything. This holds however the input is split into chunks by the memory limit, whichever formats are probed first, and whenever the conversion is paused.",
  ["inputs", "configurations", "schedules"], "all input files, memory limits, option sets and pause points",
  "no test runs the converter; the reader tests use fewer than 40 lines",
  ["pwned-converter-cli/convertoperation.cpp", LIB+"userpasswordreader.cpp"],
  [("counting loop", "ConvertOperation::execute"), ("probing rewinds", "UserPasswordReader::evaluateContents and its three probes"), ("one line per call", "UserPasswordReader::nextPassword/nextPasswordHash")])
p("C08", "A line's password is extracted and decoded by fixed rules",
  "The password of a line is the text after the first occurrence of the file's separator (the whole line if there is none), without carriage returns. An MD5 text or a $HEX[...] text is decoded only when that decoding was forced or detected and the whole text is a valid encoding; otherwise the text is hashed as it stands. Each detection looks at the file from its first line on.",
  ["inputs", "configurations"], "all lines, separators and option sets",
  "the reader tests contain no invalid $HEX[] digits, no MD5 text, no password containing the separator",
  [LIB+"userpasswordreader.cpp", LIB+"util.cpp"],
  [("extraction", "UserPasswordReader::extractPassword"), ("decoding", "UserPasswordReader::nextPasswordHash")])
p("C09", "Converted and merged files are sorted and free of duplicates",
  "Within every file the converter or the merger completes (given sorted merge inputs), hashes appear in strictly ascending order, each hash at most once.",
  ["inputs", "configurations"], "all inputs, chunk sizes and file counts",
  "no test runs the converter or the merger",
  ["pwned-converter-cli/convertoperation.cpp", "pwned-merger-cli/mergeoperation.cpp"],
  [("map and sort", "ConvertOperation::execute"), ("priority queue", "MergeOperation::execute/next, SmallestHashFirst")])
p("C10", "Merging conserves every count",
  "For any number of sorted input files and any number of files merged at once, the merged file contains every hash of the inputs with the sum of all its counts (as far as the 32-bit count can hold it), and nothing else: no record is lost, invented or counted twice.",
  ["inputs", "configurations"], "all sets of input files (including empty files, one-record files and equal hashes in several files), all slice sizes",
  "no test runs the merger",
  ["pwned-merger-cli/mergeoperation.cpp", "pwned-merger-cli/mergerinput.hpp", "pwned-merger-cli/pwned-merger-cli.cpp"],
  [("k-way merge", "MergeOperation::execute/next"), ("slicing into passes", "pwned-merger-cli main")])
p("C11", "Converter and merger destroy no file they did not create",
  "The converter and the merger delete, truncate or overwrite only files they themselves created in that run, with one exception: the merger's output file, after the user has answered the overwrite question with 'y'. Two conversions running at the same time never choose the same output file.",
  ["inputs", "schedules", "configurations"], "all directory contents, all concurrent conversions",
  "no test runs either tool, let alone with files already there",
  ["pwned-converter-cli/convertoperation.cpp", "pwned-merger-cli/pwned-merger-cli.cpp", "pwned-merger-cli/mergerinput.hpp"],
  [("name choice", "ConvertOperation::execute"), ("overwrite question and clean-up", "pwned-merger-cli main"), ("input removal flag", "MergeOperation::next")])
p("C12", "A file that cannot be opened is reported, never silently skipped",
  "When a tool cannot open its database, index, input or output file it reports that, and no lookup answers 'not found', and no output is presented as complete, on the strength of a file that was never opened.",
  ["fault_sequences", "configurations"], "all tools and all files they open, failing at the open",
  "no test opens a file that cannot be opened",
  [LIB+"passwordinspector.cpp", "pwned-index/index.cpp", "pwned-lookup-cli/pwned-lookup-cli.cpp", "pwned-converter-cli/convertoperation.cpp", "pwned-merger-cli/mergeoperation.cpp", "pwned-merger-cli/mergerinput.hpp", "deprecated/be2le/be2le.cpp", "extras"],
  [("open check before first use", "every stream opened by name in the tools")])
p("C13", "No tool loops forever on a stream that stopped delivering",
  "Whatever state an input stream is in (not opened, at its end, read error), no loop that consumes it keeps running without end: the tool finishes or reports an error.",
  ["fault_sequences", "inputs"], "all loops that read a stream, all persistent failure states of that stream",
  "the tests only use streams that end normally",
  [LIB+"userpasswordreader.cpp", LIB+"util.cpp", "pwned-index/index.cpp", "pwned-lookup-cli/pwned-lookup-cli.cpp", "deprecated/be2le/be2le.cpp", "extras"],
  [("loop exit on failed streams", "every reading loop")])
p("C14", "Every queued operation runs once and is freed once",
  "Every operation added to an operation queue is started exactly once, unless the queue is cancelled first, and is freed exactly once, after it ended. Never more operations run at the same time than the queue has slots, and each finished operation gives its slot back.",
  ["schedules"], "all interleavings of worker threads, the scheduling thread and the control thread",
  "no test uses the operation queue",
  [LIB+"operationqueue.hpp", LIB+"operation.cpp", LIB+"semaphore.hpp"],
  [("scheduler", "OperationQueue::execute"), ("ownership", "OperationQueue::finished/cancel"), ("slots", "Semaphore")])
p("C15", "Queue state is shared without races or lost wake-ups",
  "State shared between the queue's threads is touched only under its lock or atomically, every lock is released on every path, and every blocking wait re-checks a condition that the waking side sets under the same lock. Hence pausing, resuming and finishing never leave a thread asleep that should run.",
  ["schedules"], "all interleavings of pause, resume, cancel, scheduling and completion",
  "no test uses the operation queue or the semaphore",
  [LIB+"operationqueue.hpp", LIB+"operation.cpp", LIB+"operation.hpp", LIB+"semaphore.hpp"],
  [("locks and condition variables", "OperationQueue, Operation, Semaphore")],
  [("unscheduledOps, runningOps", "pending and running operations", LIB+"operationqueue.hpp"), ("_isRunning, _isCancelled", "queue flags read by several threads", LIB+"operationqueue.hpp")])
p("C16", "Cancelling stops the work, and stays visible",
  "After a cancel request no pending operation is started, a running conversion starts no further output file and a running merge writes no further record, and the requester is not blocked by operations that never started or already ended. The cancelled state stays visible until the queue is reset explicitly, so no tool goes on to the next step after a cancel.",
  ["schedules", "histories"], "all points in time at which a cancel request can arrive",
  "no test cancels anything",
  [LIB+"operationqueue.hpp", LIB+"operation.cpp", "pwned-converter-cli/convertoperation.cpp", "pwned-merger-cli/mergeoperation.cpp", "pwned-merger-cli/pwned-merger-cli.cpp"],
  [("cancel flags", "OperationQueue::cancel/waitForFinished, Operation::cancel/start"), ("polling", "ConvertOperation::execute, MergeOperation::execute")])
p("C17", "Every connection gets one response, and the worker comes back",
  "Whatever a client sends or does, each request the web service reads is answered with exactly one response with a correct length, and on success, error and timeout alike the worker that served the connection goes back to accepting the next one.",
  ["inputs", "fault_sequences", "histories"], "all request kinds and all failures of accept, read and write",
  "test_webservice does not run here and sends only valid lookups one after another",
  ["pwned-server/httpworker.cpp", "pwned-server/httpworker.hpp"],
  [("handler chain", "HttpWorker::accept/readRequest/processRequest/sendResponse/sendBadResponse"), ("timeout timer", "HttpWorker::checkTimeout")])
p("C18", "The web service answers as its API says",
  "GET <base>/lookup?hash=<32 hex digits> yields status 200 and a JSON object with the hash asked for, its stored count as 'found' and 'lookup-time-ms'; GET <base>/info yields 'count' and 'last-update'. A hash that is not 32 hex digits, an unknown path and another method are answered with an error status, never with a lookup result.",
  ["inputs"], "all requests",
  "test_webservice does not run here, and sends only valid lookups of existing hashes",
  ["pwned-server/httpworker.cpp", "pwned-server/api.yaml", "pwned-server/uri.cpp", "pwned-lookup-web/index.html"],
  [("dispatch and response", "HttpWorker::sendResponse/processRequest/sendBadResponse, makeResponse"), ("target parser", "URI::parseTarget")])
p("C19", "No client behaviour can crash the web service or mix up requests",
  "Nothing a client sends, and no moment at which it disconnects, lets an exception escape from a request handler and end the server. Requests served at the same time share no lookup state, and log lines are written one at a time.",
  ["inputs", "fault_sequences", "schedules"], "all requests, disconnect times and interleavings of workers",
  "test_webservice does not run here and uses one well-behaved client",
  ["pwned-server/httpworker.cpp", "pwned-server/httpworker.hpp", "pwned-server/pwned-server.cpp"],
  [("error_code forms of socket calls", "HttpWorker handlers"), ("one inspector per worker", "HttpWorker::mInspector"), ("log lock", "pwned-server main")])
p("C20", "A typed password goes nowhere but into its hash",
  "A password typed into the lookup tools or the web page is neither displayed, logged, stored nor transmitted; only its hash (or a probability) is used. The terminal's echo is off while a password is being typed, and is switched on again on every way out of the prompt (other than being killed).",
  ["inputs", "histories"], "all passwords and all ways through the prompt loops",
  "no test covers the interactive tools or the web page",
  ["pwned-lookup-cli/pwned-lookup-cli.cpp", "extras/pwned-markov-lookup/pwned-markov-lookup.cpp", "pwned-lookup-web/index.html", LIB+"util.cpp"],
  [("echo control", "setStdinEcho, TermIO"), ("client-side hashing", "lookup() in index.html")])
p("C21", "A Markov file is read back as it was written, or rejected",
  "Loading a saved Markov chain restores every symbol and probability that was saved. A file that is truncated anywhere, has a wrong header or version, or defines a symbol's node twice is rejected with the matching error, and every error code has its own text.",
  ["inputs", "fault_sequences"], "all chains, all truncation points",
  "test_markov checks nothing in this build (BOOST_ASSERT with NDEBUG), and never loads a damaged file",
  [LIB+"markovchain.hpp", LIB+"markovnode.hpp", "extras/pwned-markov-lookup/pwned-markov-lookup.cpp", "extras/pwned-markov-generator/pwned-markov-generator.cpp"],
  [("writer and reader", "Chain::saveBinary/loadBinary"), ("error texts", "Chain::errString")])
p("C22", "Markov probabilities are total and untruncated",
  "The probability of any password under any chain is computed without failing: an unseen first symbol or an unseen transition gives 0. Probabilities are relative frequencies of all observations, also beyond 2^32 of them.",
  ["inputs"], "all passwords, all chains, all training-set sizes",
  "test_markov checks nothing in this build, and trains with four passwords",
  [LIB+"markovchain.hpp", LIB+"markovnode.hpp"],
  [("evaluation", "Chain::totalProbability, Node::probability"), ("normalisation", "Chain::update, Node::update"), ("counting", "Chain::train/addFirst/addPair, Node::increment")])
p("C23", "URIs are split correctly or marked invalid",
  "A URI is reported valid only if it was recognised as a whole, and then each component is reported from its own place; a port outside 0..65535 or an unrecognised text makes it invalid instead of yielding a different port or an exception.",
  ["inputs"], "all strings",
  "test_uri parses 14 well-formed URIs and never asks whether one is valid",
  ["pwned-server/uri.cpp", "pwned-server/uri.hpp"],
  [("parser", "URI::parse, URI::parseTarget")])
p("C24", "Every advertised command-line option takes effect",
  "Each option a tool lists in its help text has an effect when given, and a command line that cannot be parsed ends the tool with an error status before any file is touched.",
  ["inputs", "configurations"], "all options of all tools, all unparsable command lines",
  "no test runs a tool",
  ["pwned-converter-cli/pwned-converter-cli.cpp", "pwned-merger-cli/pwned-merger-cli.cpp", "pwned-index/index.cpp", "pwned-lookup-cli/pwned-lookup-cli.cpp", "pwned-server/pwned-server.cpp", "pwned-server/loadtest/loadtest.cpp", "extras"],
  [("option tables and their use", "main of every tool")])
p("C25", "No input text can corrupt memory or exhaust the stack",
  "Formatting helpers never write outside their buffers and always match their arguments, and no line of an input file, however long, makes pattern matching recurse without bound; array indexes, shift counts and divisors taken from input or options are range-checked before use.",
  ["inputs", "configurations"], "all input lines, option values and formatted values",
  "the tests use short lines and default options",
  [LIB+"util.cpp", LIB+"userpasswordreader.cpp", "pwned-index/index.cpp", "pwned-merger-cli/progressbar.hpp"],
  [("format helper", "string_format and its callers"), ("probes", "UserPasswordReader::checkFor..."), ("index table", "pwned-index main")])
p("C26", "Output that could not be written is reported",
  "When data a tool writes to a file cannot be written completely (the disk is full, a limit is reached, the device fails), however late this shows, the tool says so and ends as failed: no incomplete output is presented as complete.",
  ["fault_sequences"], "all writing tools, every point at which the device stops taking data",
  "no test makes a write fail, and an error in buffered data shows only when the file is closed",
  ["pwned-converter-cli/convertoperation.cpp", "pwned-merger-cli/mergeoperation.cpp", "pwned-index/index.cpp", "extras/pwned-markov-generator/pwned-markov-generator.cpp", "extras/pwned-password-extractor/pwned-password-extractor.cpp", "extras/pwned-test-set-extractor/test-set-extractor.cpp", "deprecated/be2le/be2le.cpp"],
  [("outputs", "every stream or FILE opened for writing, from the open to the close")])
# --- not decidable by static analysis here (listed under not_applicable)
p("C40", "Readable sizes and times are rounded correctly",
  "A size or duration is displayed as the nearest value in the unit chosen, and never as 60 seconds or 1024 units of the smaller kind.",
  ["inputs"], "all sizes and durations", "test_util samples 29 values",
  [LIB+"util.cpp"], [("formatting", "readableSize, readableTime")])
p("C41", "A conversion stays within the memory limit given",
  "The memory the converter uses for counting stays within the limit given with --ram, over all files converted at the same time.",
  ["inputs", "configurations", "schedules"], "all inputs, limits and thread counts", "no test measures memory",
  ["pwned-converter-cli/convertoperation.cpp", "pwned-converter-cli/pwned-converter-cli.cpp"], [("per-entry estimate", "ConvertOperation::execute")])
p("C42", "Random Markov symbols follow the trained distribution",
  "Over many draws, first symbols and successors are drawn with the trained probabilities.",
  ["inputs", "histories"], "all chains", "no test draws symbols",
  [LIB+"markovchain.hpp", LIB+"markovnode.hpp"], [("inverse-transform sampling", "Chain::randomFirstSymbol, Node::randomSuccessor")])
p("C43", "Lookup effort grows with the logarithm of the database size",
  "A lookup needs a number of reads proportional to the logarithm of the number of records, and fewer with an index or the smart algorithm.",
  ["inputs"], "all databases", "read counts are reported by the benchmark only",
  [LIB+"passwordinspector.cpp", "extras/pwned-benchmark/benchmark.cpp"], [("read counters", "PasswordInspector::binsearch/smart_binsearch")])
p("C44", "An idle connection is closed after the timeout, and only then",
  "A connection that sends no complete request is closed about 60 seconds after it was accepted, and no connection is closed earlier.",
  ["schedules", "fault_sequences"], "all client timings", "test_webservice does not run and never waits",
  ["pwned-server/httpworker.cpp"], [("request timer", "HttpWorker::checkTimeout")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
print(len(P))
