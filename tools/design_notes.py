N = {
'C01': ('the mathematical definition of search in a sorted sequence: the invariant "every record equal to the sought hash lies in [lo, hi]" per loop round, over symbolic hash, size and record contents.', 'any size (64-bit offsets), any hash, any record contents; with and without index. The probe window of smart_binsearch is floating point: only that its outcome cannot change the answer is used.', '25'),
'C02': ('the answer is a function of (database, index, hash): no effect of a lookup reaches the next one.', 'any history; streams start in every error state.', '5'),
'C03': ('reader and writer derive the same bucket for the same hash and width; empty buckets are bridged on both sides.', 'widths 1 to 40 enumerated on the terms of both programs; larger widths need an index of terabytes.', '15'),
'C04': ('the lexicographic order of (upper, lower) as a 9-row decision table.', 'all pairs of hashes; hashes of different validity are outside the statement.', '2'),
'C05': ('the 256-row table of characters to digits, and the position of digit k in the halves.', 'all texts, all lengths.', '1'),
'C06': ('the byte layout (16 + 4).', 'all stream outcomes (full, short, none).', '1'),
'C07': ('conservation: +1 per password line, 0 otherwise, each counted entry written once.', 'all inputs, chunk sizes, pause and cancel points.', '13'),
'C08': ('the text rules of the statement as string provenance.', 'all lines; file-level detection (`nTries` first lines) is followed symbolically.', '5'),
'C09': ('strictly ascending output given ascending inputs.', 'any number of files and records; std::sort, std::map and std::priority_queue are trusted to honour their comparator.', '8'),
'C10': ('sum of counts per hash is preserved by every step.', 'any number of files; 32-bit overflow is excluded by the statement.', '7'),
'C11': ('the set of names a tool may destroy.', 'all paths; symbolic links and other processes racing with the tool are outside.', '10'),
'C12': ('open-state typestate per stream.', 'all streams of all tools; a file that opens and then fails to deliver belongs to C13/C06.', '30'),
'C13': ('no round of a loop maps a dead stream state to itself without another way out.', 'all loops that read; loops that never read are outside.', '40'),
'C14': ('life cycle automaton of an operation and a counting semaphore.', 'any number of operations, slots and threads; throw from std::thread construction is undecided.', '4'),
'C15': ('lockset discipline, monitor discipline for waits, one lock order.', 'any schedule; atomics are trusted to be sequentially consistent.', '1'),
'C16': ('after the flag is set, the listed effects are only reachable through a test of it.', 'any moment of the request, at the granularity of the steps the statement names.', '5'),
'C17': ('exactly one continuation per handler path.', 'all error codes; the network itself is outside.', '10'),
'C18': ('the answers of api.yaml as literal/symbol sequences.', 'all requests; float formatting is outside.', '1'),
'C19': ('no throwing operation without proof of its bounds or a handler before the event loop.', 'all requests; out of memory is outside.', '1'),
'C20': ('non-interference from prompt to sinks, except through hash and probability; echo bit automaton.', 'all paths; timing and memory contents are outside.', '1'),
'C21': ('the field sequence of the writer, read back; error table.', 'all chains and all truncation points; identical floating-point layout on both sides is the platform.', '2'),
'C22': ('product of relative frequencies, totality.', 'all chains and passwords; rounding is outside.', '4'),
'C23': ('RFC-3986-like roles of the groups of the pattern.', 'all texts; the pattern engine is trusted.', '2'),
'C24': ('each registration has a live, looked-at value; a parse error reaches only failing exits.', 'all tools with an option table; whether the effect is the right one belongs to the other properties.', '9'),
'C26': ('the world in which every flush and close of the output fails.', 'all files opened for writing by name; a conversion that says it failed and goes on with the next chunk counts as reported; removable bookkeeping files (names beginning with a dot) and /proc are outside.', '55'),
'C25': ('C format rules, sizes of objects, ranges of operands.', 'options and file contents take any value; places where a value comes from arithmetic the ranges lose are listed as undecided.', '50'),
}
CAUGHT = {'C01-past-4gb': 'yes (C01)', 'C02-cached-probe': 'yes (C02)', 'C03-last-bucket': 'yes (C03)', 'C04-signed-half': 'yes (C04)', 'C05-zero-byte': 'yes (C05)', 'C06-short-count': 'yes (C06)', 'C07-blank-chunk': 'yes (C07)', 'C08-empty-user': 'yes (C08)', 'C09-half-compared': 'yes (C09)', 'C10-single-record': 'yes (C10)', 'C11-removed-inputs': 'yes (C11)', 'C12-quiet-target': 'yes (C12)', 'C13-empty-again': 'yes (C13)', 'C14-slot-early': 'yes (C14)', 'C15-wait-once': 'yes (C15)', 'C16-cancel-between': 'yes (C16)', 'C17-garbled-request': 'yes (C17)', 'C18-path-prefix': 'yes (C18)', 'C19-any-parameter': 'yes (C19)', 'C20-echo-stays-off': 'yes (C20)', 'C21-empty-duplicate': 'yes (C21)', 'C22-last-symbol': 'yes (C22)', 'C23-two-colons': 'yes (C23)', 'C24-hex-with-md5': 'yes (C24)', 'C25-long-digits': 'yes (C25)', 'C26-early-look': 'yes (C26)', 'C26-late-close': 'yes (C26)'}
