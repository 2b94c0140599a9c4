"""Which obligation groups decide which property."""
import g_order, g_text, g_record, g_search, g_index, g_merge, g_reader, g_convert, g_queue, g_web, g_uri, g_files, g_destroy, g_markov, g_echo, g_opts, g_memory, g_outputs

def grp(mod, fn, *a):
    def g(R): getattr(mod, fn)(R, *a)
    g.__name__ = '%s.%s%s' % (mod.__name__, fn, str(a) if a else '')
    return g

order_ops = grp(g_order, 'operators'); order_less = grp(g_order, 'public_less')
order_conv = grp(g_order, 'used_comparators', 'pwned-converter-cli'); order_merge = grp(g_order, 'used_comparators', 'pwned-merger-cli')
text = [grp(g_text, f) for f in ('hex_digit', 'from_hex', 'password_digest', 'hash_text')]
rec_read, rec_write, rec_copy = grp(g_record, 'readers'), grp(g_record, 'writer'), grp(g_record, 'copies')
find, findn, smart, lookup = grp(g_search, 'search', 'find'), grp(g_search, 'search', 'findn'), grp(g_search, 'search', 'smart', False), grp(g_search, 'search', 'lookup')
dbsize = grp(g_search, 'size')
hist = [grp(g_search, 'history', 'find'), grp(g_search, 'history', 'smart', False), grp(g_search, 'history', 'lookup')]
index_writer = grp(g_index, 'writer')

merge_exec, merge_in = grp(g_merge, 'execute', 'both'), grp(g_merge, 'inputs')
merge_slices = grp(g_merge, 'slices')
reader = [grp(g_reader, f) for f in ('next_password', 'next_hash', 'detection')]; char_seq = grp(g_text, 'char_seq')
convert = grp(g_convert, 'counting')
AI = 'static analysis: disjunctive abstract interpretation (path-sensitive dataflow over symbolic terms, no execution, no solver) of the LLVM IR compiled from the current sources'
TS = 'static analysis: lockset, wait/notify and typestate analysis over all paths (disjunctive dataflow, no execution, no solver) of the LLVM IR compiled from the current sources'
TRUST = ['clang 18 translates the sources to IR faithfully', 'library functions (C++ streams, strings, containers, Boost, OpenSSL) behave as documented; their effects are modelled or over-approximated',
         'obligations the abstraction cannot settle are counted as undecided and do not raise an alarm']
PROPS = {
 'C01': dict(groups=[find, findn, smart, lookup, dbsize, order_ops, rec_read, rec_copy] + text[2:3], technique=AI, assume=TRUST,
   explain='Every path through binsearch, smart_binsearch and lookup (with everything they call inlined) is abstracted to symbolic terms. Obligations: the search loop starts with an interval that covers every record (or the bucket the index names), reads at record boundaries inside its interval, keeps exactly the records above (below) a smaller (greater) record, ends at equality only, gives up only when the interval is empty, and reports the count that was read with the matching record, or 0. The comparison operators, the record reader and the password digest used on the way are decided as in C04, C06 and C05.'),
 'C02': dict(groups=hist + [rec_read], technique=AI, assume=TRUST,
   explain='Typestate of the database and index streams along every path of the three lookups: each read is preceded by a seek, and each seek happens on a stream without error state (whatever an earlier lookup left behind). Effect analysis: no data member or global that a lookup changes flows into a decision or an answer.'),
 'C03': dict(groups=[find, findn, smart, lookup, index_writer], technique=AI, assume=TRUST,
   explain='Reader: the index entry an interval end comes from lies on the right side of the bucket of the hash, at the right distance, and the mark of an empty bucket never becomes a position. Writer (pwned-index main): the first record of every bucket, and only that, is entered at its position, empty buckets carry the mark, all of the table is written after all records were read. Both: the bucket a record is entered in equals the bucket the reader derives from the size of the file written, for every width from 1 to 40 bits (terms of both programs evaluated together).'),
 'C04': dict(groups=[order_ops, order_less, order_conv, order_merge], technique=AI, assume=TRUST,
   explain='Each comparison operator of the hash and record types, and each comparator the converter and merger pass to maps, sorts, heaps and priority queues, is abstracted to a decision table over the order of the two halves and checked against the lexicographic order of (upper, lower) in all nine order cases.'),
 'C05': dict(groups=text, technique=AI, assume=TRUST,
   explain='The accepted set of characters, the digit value of each accepted character, the length test, the position of each digit in the two halves, the validity flag on every path, the stream manipulators that print a hash, and the arguments (all bytes, full length) of the MD5 call.'),
 'C06': dict(groups=[rec_read, rec_write, rec_copy], technique=AI, assume=TRUST,
   explain='Byte-precise layout of every read and write of hashes and records: order, offsets and sizes agree between reader and writer, success is reported on exactly the paths where all bytes were delivered, a positioned read seeks to the position given on a stream without error state, and copying keeps every field.'),
 'C07': dict(groups=[convert] + reader + text + [rec_write, rec_copy, order_ops, order_conv], technique=AI, assume=TRUST,
   explain='Every path through ConvertOperation::execute, with the reader inlined, is abstracted. Obligations: a round of the counting loop reads one line and raises one count by one exactly if the line holds a password (typestate of the stream excludes the line after the end), a chunk left without being cancelled is written or known to be empty, each count is taken over and written once and unchanged, the next chunk starts with an empty map and list and no memory in use, and execute returns only at the end of the input or when cancelled. The constructor of the reader leaves the stream at its first line (see C08).'),
 'C08': dict(groups=reader + text + [char_seq], technique=AI, assume=TRUST,
   explain='Provenance of string contents along every path of UserPasswordReader (nextPassword, nextPasswordHash, constructor with its probes): the text returned, matched and hashed is the line without carriage returns, cut exactly behind the first separator found in that same text; lengths 1 to 200 yield a password and no others; a decoded text is used only where the option for it is known to be set (as the constructor stores it, or switched on after a probed line matched while detection was asked for), where the whole text matched, and where no character is known to be invalid; the literal patterns accept every encoding.'),
 'C09': dict(groups=[grp(g_convert, 'counting', 'order'), merge_exec, merge_in, order_merge, order_conv, order_ops], technique=AI, assume=TRUST,
   explain='Merger: on every path of the merge loop the record written differs from the one compared with next, equal hashes are folded into the record held back, and the smallest head is taken. Converter: what is written comes from an ordered map, or is sorted first, and each chunk starts with an empty map. Comparators as in C04.'),
 'C10': dict(groups=[merge_exec, merge_in, merge_slices, order_merge, order_ops, rec_read, rec_write, rec_copy], technique=AI, assume=TRUST,
   explain='Conservation along every path of the merge loop: each record an input delivers is added to the count of an equal record held back or becomes the record held back after that one was written; the last record is written at the end; an input leaves the queue only when it delivered its last record. The files are divided among the merge operations so that every file is in exactly one slice, and every intermediate file is merged again.'),
 'C14': dict(groups=[grp(g_queue, 'lifecycle')], technique=TS, assume=TRUST,
   explain='Typestate of operations and slots along every path of every member of the queue, the operation and the semaphore (explicitly instantiated) and of both thread bodies: the scheduler takes one slot, looks at and takes off one pending operation under one lock and starts one thread with it, or ends only when nothing is pending or the queue was cancelled and gives the slot back; the worker starts its operation once, takes it off the running ones, frees it once after it ended and gives the slot back once; cancel and destructor free each pending operation once and leave none; the semaphore counts by one under its lock and never below zero; an exception in an operation is caught.'),
 'C15': dict(groups=[grp(g_queue, 'sharing')], technique=TS, assume=TRUST,
   explain='Lockset analysis: for every non-atomic member every pair of accesses from threads that can run at the same time (any caller, owner, scheduler, worker; joins considered) holds a common lock unless both read. Every lock is released at every return and every repetition. Wait/notify analysis: each wait repeats its check, each store that can end a wait happens under the lock of the waiting side and is followed by a notification (of all, where several operations wait), resume() undoes everything pause() leaves behind. Locks are taken in one order, and no thread sleeps or joins holding a lock the waking thread needs first.'),
 'C16': dict(groups=[grp(g_queue, f) for f in ('cancelling', 'converting', 'merging', 'merge_steps')], technique=TS, assume=TRUST,
   explain='Every store to the cancel flags is found: only reset (and construction) takes the flag of the queue back. cancel() marks the queue, ends a pause and tells each running operation before it waits, under the lock under which the scheduler looks at the flag and enters an operation as running; an operation that never started, or has ended, is not waited for. The scheduler starts a thread, an operation executes, a conversion opens an output file, a merge writes a record and the merger starts its next step only behind a look at the flag that found it clear, in the same round.'),
 'C17': dict(groups=[grp(g_web, 'connections')], technique=TS, assume=TRUST,
   explain='Continuation typestate over the asynchronous handlers of the web service (the closures passed to async_accept, async_read, async_write and async_wait): every path of every handler, error paths included, starts exactly one next operation on the connection; a request that was read leads to a write, a failed read or write back to accept. States of the objects of a worker are propagated from each operation to the paths of its handler until nothing changes: the socket is closed before the next accept, a deadline is set before a read, buffer, parser and serializer are fresh, the length of a response is set after its body, and no object an operation works on is local to the handler or replaced while the operation runs. The timeout handler waits again on every path, closes the connection exactly when the deadline has passed, and then moves the deadline.'),
 'C18': dict(groups=[grp(g_web, 'answers')], technique=AI, assume=TRUST,
   explain='Every path from a request that was read to its response is abstracted, with the contents of strings, streams and the JSON tree as sequences of literals and symbolic values: a lookup happens only on paths where the method is GET, the path equals <base>/lookup and the hash taken from the parameter hash is valid, and its answer has status 200 and a JSON object whose hash, found and lookup-time-ms come from that hash, its stored count and a number; /info yields the size of the database and the time its file was written; every other path has a status of 400 or above.'),
 'C19': dict(groups=[grp(g_web, 'crashing')], technique=TS, assume=TRUST,
   explain='In the handlers and everything of the project they call: no throw, no number conversion of client text, no socket call without error code, no element access or map::at whose bounds the path does not establish, unless the exception is caught before the event loop. Effects: the handlers change no variable or object shared by the workers without a lock, each worker looks up in a database object of its own, socket and timer of a worker run on one strand when several threads run the event loop, and log output is written under one lock that all threads share.'),
 'C23': dict(groups=[grp(g_uri, 'uris'), grp(g_uri, 'alphabet')], technique=AI, assume=TRUST,
   explain='Provenance of string contents along every path of the functions of the URI class that take a text, with the roles of the groups read off the syntax tree of the pattern: a path reports a text valid only where a pattern tied to both ends recognised it; each accessor reports a member that every such path fills from the group (or the part of it) that is its own place, and that keeps nothing of an earlier text; credentials and query parts that cannot be split make it invalid; the number stored as the port is known to lie in 0..65535 and comes from the port group, its conversion cannot throw, and no group can hold the character that ends it. A request target is split at ?, #, & and = in this order, each name and value from its own side.'),
 'C11': dict(groups=[grp(g_destroy, 'converter'), grp(g_destroy, 'merger')], technique=TS, assume=TRUST,
   explain='Every call that deletes, renames, truncates or opens a file for writing in the converter and the merger, on every path that reaches it, with the provenance of the name (string contents through copies and conversions). Converter: the name was found unused by a call to exists on the same path, unchanged since, and one lock all conversions share is held from that question to the open. Merger: the name of an output is either made with unique_path, or exists said no for it, or the character read from the terminal is known to be y (and what the variable holds when nothing can be read is not y); only names of intermediate files enter the list that is deleted at the end; input files are deleted only behind a switch that every construction of the operation leaves off.'),
 'C12': dict(groups=[grp(g_files, 'opening'), grp(g_files, 'swallowed')], technique=TS, assume=TRUST,
   explain='Every stream (and FILE) opened by name anywhere in the tools is followed along every path of every function it is opened in, and of the functions that handle the object holding it: on each path that goes on as if all was well (returns success, starts the next round, keeps using the stream) the stream is known to be open - tested with is_open or its error state, or a read from it succeeded. A path on which it is not open ends in a failure code, an exception, a message on the error output, or leaves a mark that a later function turns into one. A function that returns whether the file is open passes the duty to its callers, which are followed in turn. Handlers that catch an exception about a file print or rethrow it on every way out.'),
 'C13': dict(groups=[grp(g_files, 'loops')], technique=TS, assume=TRUST,
   explain='Every loop of every tool whose rounds read a stream (getline, read, >>, getchar, with the functions that do it inlined). For each state a stream can stay in (never opened, at its end, read error) the error flags are followed through a round: no path through a round may be taken with the stream in that state on entry and on return to the head, unless the loop has another way out that depends on something that changes from round to round.'),
   'C20': dict(groups=[grp(g_echo, 'secrets'), grp(g_echo, 'echo'), grp(g_echo, 'page')], technique='static analysis: taint dataflow and terminal-mode typestate over the LLVM IR, taint dataflow over the syntax tree of the web page (no execution, no solver)', assume=TRUST,
   explain='Terminal tools: what a read from standard input delivers is followed (flow-sensitive taint through strings, containers, string streams, copies, iterators and characters) through the whole program reachable from the prompt to every output call, file, command, error text and container that outlives the round; hashing and probabilities end the flow. Echo: the state of the ECHO bit (the bit of the value that is stored into c_lflag and handed to tcsetattr) is followed over every path, to a fixpoint over the prompt loop: off at every read of a password, not off on any path that leaves. Web page: taint from the value of the password field (found by the type of the field and by what is handed to the hash) through variables, parameters, results, templates and destructuring to requests, storage, console, address, page content and form submission.'),
 'C24': dict(groups=[grp(g_opts, 'effects'), grp(g_opts, 'refusal'), grp(g_opts, 'passed_over')], technique='static analysis: option tables read off the calls that register them, live-variable and use-def slices from notify, disjunctive dataflow along the unwinding edges of the parser, over the LLVM IR (no execution, no solver)', assume=TRUST,
   explain='For every tool with an option table, each registration is read off the program (name, short name, variable, modifiers). A valued option: the value its variable has after notify is live - some path reaches a use without another value in between - and the forward slice of that use (through copies, conversions, members of the classes of the project) reaches a branch, a call or memory that is looked at; being shown or tested for emptiness is not enough. A flag: asked for by its name, and something depends on the answer. Names are distinct, every variable belongs to one option, every name asked for is listed, a switch is not on by default. Refusal: along the unwinding edges of the calls that parse, every path ends with a status that is not 0, and neither it nor the code before it creates, truncates, renames or removes a file.'),
 'C21': dict(groups=[grp(g_markov, 'fileformat')], technique=TS, assume=TRUST,
   explain='Every path through the writer and the reader of Markov files (the loops over nodes and successors included) as a sequence of fields: order, offset, width and meaning agree piece by piece, the number written ahead of a loop is the size of the container the loop walks over and the loop of the reader ends exactly after that number of rounds, and every symbol and probability that is read is stored under the symbol it was written with. End-of-file typestate: for each read, no path on which it (and all later reads) fails reaches success or another round; header and version are compared with what is written; a node defined twice is rejected; the error code of each kind of failure is its own and its text (read off the table of literals) names that kind; a chain that was not loaded is not used.'),
   'C22': dict(groups=[grp(g_markov, 'total'), grp(g_markov, 'frequencies'), grp(g_markov, 'counting')], technique=AI, assume=TRUST,
   explain='Every path of the evaluation of a password: no call that throws for a missing element, an element is dereferenced only where the path compared the iterator with end, a symbol that was not found yields 0, and the product has one factor for the first symbol and one for each pair of neighbours. Normalisation: each probability is the count of the same entry converted to floating point before it is divided by the sum of all counts, accumulated in 64 bits. Training: one count of the first symbol and of each pair of neighbouring symbols per password, kept in 64 bits, never narrowed.'),
 'C25': dict(groups=[grp(g_memory, f) for f in ('format', 'arith', 'buffers', 'matching', 'elements', 'recursion')], technique=AI, assume=TRUST,
   explain='Every printf-like call of the project is compared with its arguments (number, type, width), through the wrappers that pass on a variable argument list, whose lists are started, used once and ended on every path. Every write with a bound (block copies, element stores, reads into a buffer) is compared with the size of the object written to; every divisor and shift count is followed to where its value comes from - constants, checks on the path, options and what checks them, members and every store to them - and reported where a value from outside makes it zero or too wide. Every regular expression match has a subject whose length the path has bounded; every unchecked element access has its emptiness or index tested; no cycle of calls consumes input per level.'),
 'C26': dict(groups=[grp(g_outputs, 'writing')], technique=TS, assume=TRUST,
   explain='Every stream (and FILE) opened for writing by name anywhere in the tools is followed along every path of the function it is opened in (helpers inlined) under the assumption that its data cannot be written, the error appearing where buffered data meet it: at a flush or when it is closed. No path closes the file, or lets it go out of scope, and then ends as a success: it has to ask the stream (or use the result of fclose) after that point, and end in a failure code, an exception or a message with a failing end. Writes to a FILE are also looked at with the error flag: some call has to look for a failed write.'),
}
