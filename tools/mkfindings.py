#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json: the repaired defects ('fixed' entries suppress nothing) and the open ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """C04 6cc28d3 != on hashes was not the negation of ==: it held for any two hashes that differ in one half only by accident
C02 7e53354 a lookup after one that had read past the end of the database searched a stream in the failed state and answered 0
C03 e7f8cc3 lookups through an index with empty buckets at either end never ended or used the mark of an empty bucket as a position
C12 e333c76 an inspector on a database or index that could not be opened answered every lookup with 0
C13 17a414b the lookup prompt looped forever at the end of its input
C24 9570122 --help, --warranty or --license, though advertised, had no effect in several tools
C24 3966401 a command line that could not be parsed ended the tools with status 0
C24 d10a3dd the converter ignored --input and --threads
C25 c4de74b pwned-index shifted by the full width for --bits 0 or more than 63, and read records it had not checked
C13 c01e5e3 a reader on a stream that failed without reaching its end never reported its end
C25 7a301de the format probes ran recursive regular expressions on lines of any length
C08 c84210f a $HEX[...] text that is no valid encoding was hashed as whatever was decoded of it
C12 f22f391 the converter skipped files it could not open without a word
C11 ad7236b two conversions running at the same time could choose the same output file
C16 25dcf78 a cancelled conversion went on counting and wrote another output file
C13 4d1afe0 with a memory limit below one entry the conversion made no progress
C13 873dc70 the key threads looped forever once the end of their input was reached
C15 2c2a1f2 waiting for an operation tested its flag outside the lock: the wake-up could be lost
C12 90bc566 the converter ended with status 0 although an operation had failed
C15 6f78969 pausing, resuming and cancelling changed state the worker waits on without the lock
C14 89d176c the queue looked at its list of operations without the lock
C16 2b56a3c waiting for the queue reset the cancelled state, so the converter went on as if nothing had happened
C15 407576f the semaphore read and wrote its capacity without its lock
C10 2363509 the merger lost the last record of an input, or wrote one twice, depending on where inputs ended
C12 3426477 a merge with inputs that could not be read was reported as complete
C11 3af9927 an unanswered overwrite question counted as yes
C11 2db1d62 the merger could overwrite one of its own inputs; with one file merged at a time it never ended
C25 dd0bf2e the progress bar divided by zero for an empty input
C12 3e45fc4 be2le wrote the last record twice and did not report files it could not open
C13 b2b5aea loops over /proc/meminfo and the .ready file never ended when no line could be read
C13 a061dbf the test set extractor looped or divided by zero for a number of data sets below 1
C12 a798854 the Markov generator ran on although its input or output could not be opened
C25 ad44548 --output-every 0 divided by zero
C12 ce7d122 the benchmark reported results for a test set it could not open
C20 1ded838 re-enabling echo set every other terminal flag instead of echo alone
C25 4db9176 string_format wrote before its buffer when the result was empty
C21 f804e8b two Markov error codes had the same text
C22 e453a32 the probability of an unseen transition threw an exception
C22 edac3fe sums of Markov observations were cut to 32 bits
C21 fbce8ce a truncated Markov file was accepted; an empty chain was not saved at all
C12 bfa3923 the Markov lookup answered from a chain it could not load
C16 1292b55 a second running operation was told to stop only after the first one had ended, and started output files until then
C18 792fa72 the server did not compile against the Boost installed here
C18 4fc8788 a hash that is no hash was looked up and answered with status 200
C19 1f7225d a client that disconnected early ended the server through an exception
C19 7b61d55 the handlers of one worker could run at the same time and share its state
C23 3c6c58f a URI recognised in part was reported valid, and its port was cut to 16 bits
C23 d350b30 an URI object that parsed a second text kept parts of the first
C25 9a452fc an index of fewer than two keys made the lookup shift by the full width of the hash
C25 88c131b the load test divided by the size of an empty input file
C26 9740a14 pwned-index said "Ready." and exited with 0 when the index could not be written (disk full, or cut by a limit)
C26 4aabd89 a conversion whose output was cut by a full disk ended like one that succeeded
C26 ff57b1b a merge whose output was cut by a full disk ended like one that succeeded, and its intermediate files were removed
C26 eb4b7b3 the Markov generator ended with 0 when its file could not be written
C26 186516f the password extractor ended with 0 when its output could not be written
C26 54add31 the test set extractor said "Ready." when its output could not be written
C26 dbf8e88 be2le said "Ready." when its output could not be written"""
fixed = []
for l in F.splitlines():
    p, c, t = l.split(' ', 2); fixed.append('fixed: property=%s %s %s' % (p, c, t))
json.dump({'open': [], 'fixed': fixed}, open(os.path.join(V, 'KNOWN_FINDINGS.json'), 'w'), indent=1)
print(len(fixed))
