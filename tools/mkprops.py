#!/usr/bin/env python3
# Generates properties.jsonl (the committed file is its output).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

p('C01', 'A hash table is a faithful map from keys to data',
  "After any history of insertions, deletions and look-ups, a hash table holds exactly the keys inserted and not deleted: retrieving a live key (in the sense of the table's compare function) returns the datum of its first insertion and any other key returns NULL; inserting a key that is present returns 1 and changes nothing, else 0; deleting returns 0 if the key was present, else 1. "
  "This holds for any consistent hash and compare functions given at creation (including all-colliding and full-width hash values, the default string functions, the pointer functions, and functions that use other tables themselves), across every automatic growth and whatever reorganisation look-ups cause. "
  "The statistics always agree with the history: number of entries, retrievals, misses, hits plus chain figures consistent with the entries, also as printed (on standard output if no stream is given), and the table grows so that at an insertion it is never more than half full.",
  ['inputs', 'histories', 'configurations'],
  "all sequences of hsh_insert/hsh_delete/hsh_retrieve/hsh_get_stats over arbitrary keys, any hash/compare pair",
  "tests/hash inserts, finds and removes consecutive keys in a fixed order with three well-behaved hash functions; it never mixes operations across a resize, re-inserts after deletion with chains reordered by retrieval, or uses colliding hashes.",
  ['maa/hash.c', 'maa/prime.c'],
  [('stored full hash, modulo prime size, growth by 3x when more than half full', 'maa/hash.c: hsh_insert'),
   ('chain unlinking', 'maa/hash.c: hsh_delete'), ('move-to-front on retrieval', 'maa/hash.c: hsh_retrieve'),
   ('recount and cross-check', 'maa/hash.c: hsh_get_stats')],
  ['hsh_insert, hsh_delete, hsh_retrieve return values', 'hsh_get_stats', 'hsh_print_stats'],
  [('table', 'buckets, entries, resizings, retrieval counters', 'maa/hash.c: struct table')])

p('C02', 'Hash iteration is exhaustive, exact, stoppable and guarded',
  "Iterating over a hash table by callback, callback with argument, or position marker presents every live (key, datum) pair exactly once and nothing else, stops as soon as a callback returns non-zero (and then reports non-zero, otherwise zero), and leaves the contents unchanged; a callback may delete the entry it is being shown, look keys up and iterate itself. "
  "While a table is readonly (set explicitly or by a position iteration in progress) an attempt to insert, delete or destroy is diagnosed and aborts, look-ups still answer correctly and do not disturb the iteration; setting the readonly flag returns the previous one, and a completed or explicitly ended position iteration makes the table writable again.",
  ['histories', 'inputs'],
  "all tables reachable by any history, all stopping points, all interleavings of look-ups with a position iteration",
  "tests/hash iterates a handful of fully populated tables to the end only; early stop, deletion during iteration and the readonly guard are never exercised.",
  ['maa/hash.c', 'maa/maa.h'],
  [('saved successor during callback iteration', 'maa/hash.c: hsh_iterate, hsh_iterate_arg'),
   ('position markers', 'maa/hash.c: hsh_init_position, hsh_next_position, hsh_get_position'),
   ('readonly flag', 'maa/hash.c: hsh_readonly and the mutators'), ('HSH_ITERATE, HSH_ITERATE_KEYS, HSH_ITERATE_END', 'maa/maa.h')],
  ['callback arguments and order-insensitive multiset of visits', 'return value', 'abort with diagnostic'],
  [('readonly', 'no modification while iterating by position', 'maa/hash.c: struct table')])

p('C03', 'A set object is a faithful set under insert, delete, member, iterate',
  "After any history, membership, count, iteration (callback, callback with argument, position) and statistics (also printed) of a set describe exactly the elements inserted and not deleted, each once; insertion returns 1 for an element already present (keeping the original) and 0 otherwise, deletion 0 if present and 1 otherwise. "
  "It holds for any consistent hash and compare functions, which can be read back, and across growth. "
  "While a set is readonly (explicitly, during a callback iteration, or during a position iteration) modification is diagnosed and aborts, and the previous readonly state is restored when a callback iteration ends, early or not; a callback may itself iterate over the same or another set.",
  ['inputs', 'histories', 'configurations'],
  "all sequences of set operations over arbitrary elements, any hash/compare pair",
  "tests/set performs one fixed build-and-query script; growth combined with deletion, collisions, early stop and the readonly guard are not reached.",
  ['maa/set.c'],
  [('insertion, growth', 'maa/set.c: set_insert'), ('deletion', 'maa/set.c: set_delete'), ('membership with move-to-front', 'maa/set.c: set_member'),
   ('saved readonly flag', 'maa/set.c: set_iterate, set_iterate_arg')],
  ['return values', 'set_count', 'set_get_stats', 'visits'])

p('C04', 'Set algebra computes union, intersection, difference, equality',
  "For any two sets with the same hash and compare functions (including a set and itself, empty sets, and very different sizes), union, intersection and difference return a new independent set with exactly the mathematical result, equality is non-zero exactly when both have the same elements, and none of these changes the contents of an operand; the in-place addition and deletion return the first set, changed exactly to the union or the difference, and leave the second one's contents unchanged. "
  "Elements of a result are the pointers stored in the operands, those of the first operand where an element is in both. "
  "Sets whose hash or compare functions differ are refused with a fatal error (exit status 1), as are no other pairs.",
  ['inputs', 'histories'],
  "all pairs of reachable sets, including aliased operands",
  "tests/set checks a few unions/intersections on ranges of small integers; aliasing, resizing in the middle of an operation and operand preservation are not checked.",
  ['maa/set.c'],
  [('new-set operations', 'maa/set.c: set_union, set_inter, set_diff'), ('in-place operations', 'maa/set.c: set_add, set_del'),
   ('equality', 'maa/set.c: set_equal')],
  ['contents of result and operands', 'exit status'])

p('C05', 'A list is an exact sequence',
  "After any history of appends, pushes, pops, element replacements and truncations (by length or at a position marker), a list is the corresponding sequence: its length, first element, n-th element (1-based, NULL or no position outside the list), membership by pointer, head/last/n-th/next position markers and both iterations all agree with it, in order. "
  "Iteration stops early exactly when the callback returns non-zero, and its callback may itself iterate over the same or another list; replacing an element that does not exist is a fatal error. "
  "Any number of lists live independently of one another, and destroying one does not disturb the others; a dump prints every datum in order, one to a line.",
  ['inputs', 'histories'],
  "all operation sequences over several simultaneously live lists, all data pointers including NULL",
  "tests/list appends and pushes a few elements; truncation, positions, replacement and interleaved lists are not covered (lst_truncate used to crash for any length of at least 2).",
  ['maa/list.c', 'maa/memory.c'],
  [('head/tail/count maintenance', 'maa/list.c: lst_append, lst_push, lst_pop'), ('truncation', 'maa/list.c: lst_truncate, lst_truncate_position'),
   ('node recycling between lists', 'maa/memory.c: mem_get_object, mem_free_object')],
  ['every lst_* query function'],
  [('list', 'head, tail, count', 'maa/list.c: struct list')])

p('C06', 'A stack is last-in first-out',
  "After any history of pushes and pops, top and pop give the most recently pushed datum that has not been popped, and NULL when there is none; the emptiness test is non-zero exactly when nothing is left, also when NULL pointers were pushed. "
  "Stacks are independent of one another.",
  ['histories'], "all push/pop/top/isempty sequences over several stacks",
  "tests/stack runs one short script on one stack.",
  ['maa/stack.c'], [('linked cells', 'maa/stack.c: stk_push, stk_pop, stk_top, stk_isempty')], ['return values'])

p('C07', 'A skip list is an ordered map that survives change during a walk',
  "After any history of insertions and deletions, finding a key returns the datum in the list with that key or NULL (the datum itself is the key if no key function was given), and iteration presents exactly the data in the list in ascending key order, stopping early with the callback's non-zero value. "
  "A callback that inserts or deletes data, the current one included, or iterates itself, does not disturb the iteration: it presents the data the list held when it started. "
  "Inserting a key already present or deleting one that is absent is diagnosed and aborts, and the number of comparisons for a find grows far slower than the number of data.",
  ['inputs', 'histories'],
  "all insert/delete/find/iterate sequences, any total order, every random level assignment, every mutation made inside a callback",
  "tests/sl inserts and deletes small integers in a fixed order with one random sequence; mutation during iteration and misuse are not tested.",
  ['maa/sl.c'],
  [('search path', 'maa/sl.c: _sl_locate'), ('linking', 'maa/sl.c: sl_insert'), ('unlinking and level shrinking', 'maa/sl.c: sl_delete'),
   ('snapshot before the walk', 'maa/sl.c: sl_iterate, sl_iterate_arg')],
  ['sl_find, sl_iterate, sl_iterate_arg results', 'comparison count', 'abort with diagnostic'],
  [('list', 'levels, count, head', 'maa/sl.c: struct _sl_List')])

p('C08', 'A string pool interns: equal content, identical pointer',
  "In any history on a string pool, looking a string up (whole, by length, or grown piece by piece and finished) returns the same pointer for equal contents and different pointers for different contents; the pointed-to text is a null-terminated copy that never changes or moves until the pool is destroyed, whatever the caller does to its own buffer. "
  "Existence tests are true exactly for interned strings, the plain copy functions return fresh copies without interning, generated unique strings start with their prefix and were not in the pool before, and every iteration (callback, with argument, position) visits exactly the interned strings once, can be stopped early, can be nested in the callback of another, and leaves the pool usable. "
  "The global pool behaves the same, comes into being on first use by any of its functions, and can be destroyed and used again any number of times.",
  ['inputs', 'histories'],
  "all strings and all sequences of pool operations, global and private pools",
  "tests/string only looks up and prints a few strings; growth, copies, iteration, re-creation of the global pool and uniqueness are untested (several of them crashed).",
  ['maa/string.c', 'maa/hash.c', 'maa/memory.c'],
  [('look-up then copy and insert', 'maa/string.c: str_pool_find, str_pool_finish'), ('lazy global pool', 'maa/string.c: _str_check_global'),
   ('unique names', 'maa/string.c: str_unique'), ('iteration', 'maa/string.c: str_pool_iterate, str_pool_iterate_arg, positions')],
  ['returned pointers and their contents', 'visits', 'str_pool_get_stats'])

p('C09', 'The string heap keeps every string intact until destroyed',
  "Every string stored in a string heap (copied whole, copied by length, or grown in pieces and finished) is a separate null-terminated copy with exactly the requested bytes, unaffected by later operations or by changes to the caller's buffer, and only the given bytes of the source are read. "
  "The statistics, also as printed (on standard output if no stream is given), report the number of strings stored and the bytes they occupy with their terminators.",
  ['inputs', 'histories'],
  "all strings and lengths (including zero, and embedded null bytes for the length-based calls), all operation sequences",
  "tests/memstr stores seven short names; lengths shorter than the source, unterminated sources and long sequences are not covered.",
  ['maa/memory.c', 'maa/xmalloc.c'],
  [('copying', 'maa/memory.c: mem_strcpy, mem_strncpy'), ('growing', 'maa/memory.c: mem_grow, mem_finish')],
  ['returned pointers and their contents', 'mem_get_string_stats'])

p('C10', 'The object heap hands out disjoint objects and recycles them',
  "At any point of any history, the objects obtained from an object heap and not yet freed are distinct, do not overlap, each have the full requested size usable (and an address aligned as their size needs), and keep their contents until freed; an object obtained as empty is all zero bytes, also when it is recycled. "
  "A freed object is reused before new memory is allocated, and the statistics, also as printed (on standard output if no stream is given), report exactly the distinct objects allocated, those in use, the number of reuses, and the object size.",
  ['histories', 'configurations'],
  "all get/get-empty/free sequences, all object sizes, several heaps",
  "tests/memobj runs one fixed script with few objects and one size.",
  ['maa/memory.c', 'maa/stack.c'],
  [('free list before allocation', 'maa/memory.c: mem_get_object'), ('zeroing', 'maa/memory.c: mem_get_empty_object'), ('free', 'maa/memory.c: mem_free_object')],
  ['returned pointers and memory contents', 'mem_get_object_stats'])

p('C11', 'An argument list holds exact copies and a NULL-terminated vector',
  "After any sequence of additions (whole strings, by length, or grown in pieces and finished), an argument list of any size contains exactly copies of the added strings in order: the count, each item by index, and the argc/argv vector, which is NULL-terminated, all agree, and later changes to the caller's buffers have no effect. "
  "Strings returned earlier remain valid until the list is destroyed, and asking for an item outside the list is diagnosed and aborts.",
  ['inputs', 'histories'],
  "all strings and all sequences of arg_add/arg_addn/arg_grow/arg_finish, any list length",
  "tests/arg only prints lists produced by tokenising a few fixed lines; the adding interface, growth of the vector and out-of-range access are untested.",
  ['maa/arg.c', 'maa/memory.c'],
  [('vector growth and terminator', 'maa/arg.c: arg_add, arg_addn, arg_finish'), ('bounds check', 'maa/arg.c: arg_get')],
  ['arg_count, arg_get, arg_get_vector'])

p('C12', 'Argument tokenisation follows the quoting rules and inverts quoting',
  "Tokenising any string splits it at runs of unquoted white space (blank, tab, carriage return, vertical tab, newline) into words in which quotes are stripped: within single or double quotes everything up to the matching quote is literal, outside quotes a backslash makes the next character literal, and adjacent quoted and unquoted pieces join into one word (an empty quoted piece alone is an empty word). "
  "The flags that disable escapes or quotes make exactly those characters ordinary; an unterminated quote or a trailing backslash ends the last word without reading past the string. "
  "Consequently any list of words, each written with any valid quoting of its characters and separated by any white space, tokenises back to exactly those words.",
  ['inputs', 'configurations'],
  "all input strings (all byte values) under all four flag combinations",
  "tests/arg has a few dozen fixed lines; combinations of quote kinds, escapes, empty words, unterminated input and flags form an unbounded space.",
  ['maa/arg.c', 'maa/arggram.txt', 'maa/arggram2c'],
  [('state machine', 'maa/arggram.txt compiled by maa/arggram2c'), ('character classes', 'maa/arg.c: char2char_type'), ('driver', 'maa/arg.c: arg_argify')],
  ['arg_count, arg_get'])

p('C13', 'Base-26 and base-64 codes are canonical and round-trip',
  "For every unsigned long value, encoding in base 26 (a-z) or base 64 (A-Z a-z 0-9 + /) gives the shortest most-significant-first numeral without leading zero digits (a single zero digit for 0), and decoding it gives the value back; in particular different values have different codes. "
  "Decoding any numeral in the alphabet gives its positional value, leading zero digits are allowed, and decoding a buffer reads exactly the given number of characters; a character outside the alphabet is diagnosed and aborts.",
  ['inputs'], "all unsigned long values, all numerals whose value fits, all illegal characters",
  "tests/base walks small values and a few near powers of two below 2^31; large values (which were lost), illegal characters and length-bounded decoding are untested.",
  ['maa/base26.c', 'maa/base64.c'],
  [('encoders', 'b26_encode, b64_encode'), ('decoders', 'b26_decode, b64_decode, b64_decode_buf')], ['returned strings and values', 'abort with diagnostic'])

p('C14', 'Primality and next prime are right for all 32-bit values',
  "For every 32-bit value the primality test is non-zero exactly for primes, and the next-prime function returns the smallest odd prime greater than or equal to its argument whenever a 32-bit one exists.",
  ['inputs'], "all 32-bit unsigned values",
  "tests/prm and tests/prime check five values.",
  ['maa/prime.c'], [('trial division', 'maa/prime.c: prm_is_prime'), ('search over odd numbers', 'maa/prime.c: prm_next_prime')], ['return values'])

p('C15', 'Bit operations act on exactly the addressed bit of an unsigned long',
  "For every word and every bit number from 0 to the width of an unsigned long less one, setting and clearing change exactly that bit, testing is non-zero exactly if it is set, and the count is the number of set bits.",
  ['inputs', 'histories'], "all 64-bit words, all bit numbers, any sequence of operations",
  "tests/bit uses the lower 32 bits of a few words; bit_tst used to be wrong for every bit above 31.",
  ['maa/bit.c'], [('shift and mask', 'bit_set, bit_clr, bit_tst'), ('parallel count', 'bit_cnt')], ['word value', 'return values'])

p('C16', 'Soundex codes follow the documented (Knuth) rules',
  "For every string the Soundex code is exactly four characters: the first ASCII letter in upper case followed by the digit codes of the following letters in order, where letters coded the same as the letter just before are not repeated, vowels and H, W, Y give no digit, non-letters are ignored, and the code is padded with zeros or cut to length; a string without letters gives Z000. "
  "The code depends neither on letter case nor on non-letter characters, and both entry points agree.",
  ['inputs'], "all byte strings",
  "no existing test calls the Soundex functions at all.",
  ['maa/text.c'], [('letter map and previous-code comparison', 'maa/text.c: txt_soundex2'), ('static buffer wrapper', 'maa/text.c: txt_soundex')], ['returned string'])

p('C17', 'Debug and feature flags are independent named switches',
  "Registering associates a name with one flag (exactly one of the low 30 bits set, in one of four sets selected by the top two bits); after any history of setting and clearing by name (name or +name sets, -name clears, none clears everything, all sets everything) or by flag, testing a flag is non-zero exactly if that flag is currently set, independently of every other flag and set. "
  "Malformed flags, flags registered before, user debug flags from the reserved set, and unknown names are refused with a fatal error and the list of valid names; listings show exactly the registered names, and destroying forgets everything. "
  "The debug and the feature registry do not affect each other.",
  ['inputs', 'histories'],
  "all sets of registered flags and names, all sequences of set/unset/test operations",
  "tests/debug registers six flags and sets some of them once; the third set of flags, duplicate registration and misuse were never tested (and were broken).",
  ['maa/debug.c', 'maa/flags.c'],
  [('set selection', 'maa/debug.c and maa/flags.c: TEST'), ('registration checks', '_dbg_register, dbg_register, flg_register'), ('name parsing', 'dbg_set, flg_set')],
  ['dbg_test, flg_test', 'dbg_list, flg_list, flg_name', 'exit status and stderr'])

p('C18', 'Timers report the time elapsed between start and stop',
  "For any interleaving of named timers, after a timer is stopped its real time is the wall-clock time, and its user and system times the CPU time of the process and its waited-for children, that passed since that timer was last started, with microsecond resolution; restarting does not change the reported values until the next stop, resetting makes them zero, and timers do not affect each other. "
  "Using a timer that was never started is diagnosed and aborts; the printed report shows the same figures rounded to milliseconds.",
  ['histories', 'inputs'], "all sequences of start/stop/reset/get over any number of names, all clock readings",
  "no existing test reads a timer; its resolution used to be one second.",
  ['maa/timer.c'], [('marks', 'maa/timer.c: tim_start'), ('differences', 'maa/timer.c: tim_stop'), ('report', 'tim_print_timer, tim_print_timers')],
  ['tim_get_real, tim_get_user, tim_get_system', 'printed text'])

p('C19', 'A child process gets exactly the requested wiring and is reaped',
  "Opening a process runs the tokenised command with each of stdin, stdout and stderr connected exactly as the flags say (a new pipe, the given descriptor, the null device, stdout for stderr, or inherited), after the callback if one is given; a pipe created for one child is not visible to another child, so closing the parent's end always delivers end of file. "
  "Closing or waiting returns the exit status, 128 plus the signal number if a signal other than SIGPIPE killed the child, 127 if the program could not be run, and 0 for a child already waited for; spawning does the same in one call. "
  "Illegal flag combinations and closing descriptors that no open created are diagnosed and abort, shutdown kills and reaps the children still open (and signals no other process), and a pipe or process that cannot be created is a fatal error.",
  ['inputs', 'histories', 'configurations'],
  "all flag combinations, commands, exit codes and signals, and all open/close orders of several simultaneous children",
  "tests/pr runs a few fixed commands with a few flag combinations, one or two children at a time.",
  ['maa/pr.c', 'maa/arg.c'],
  [('child wiring', 'maa/pr.c: pr_open2 (CHILD)'), ('descriptor table, closing of other children\'s pipes', 'maa/pr.c: pr_open2'),
   ('status translation', 'maa/pr.c: pr_wait, pr_spawn'), ('shutdown', 'maa/pr.c: _pr_shutdown')],
  ['what the child reads, writes and sees open', 'return values', 'abort with diagnostic'],
  [('descriptor table', 'pid per descriptor', 'maa/pr.c: _pr_objects')])

p('C20', 'Filtering through a process neither loses data nor deadlocks',
  "Filtering any input of any size (also empty, also much larger than a pipe) through a command that consumes it returns exactly the bytes the command writes, in order, with their number, and terminates, whatever the pattern of partial reads, writes and delays on either side, also when signal handlers interrupt it. "
  "Output that does not fit the buffer, or a filter that ends before consuming its input, is a fatal error and never silent truncation, as is an error of reading or writing, and never more than the given buffer size is written.",
  ['inputs', 'schedules'],
  "all input contents and sizes, filters with different buffering, output buffer sizes from too small to ample",
  "tests/pr filters one small text; sizes around and above the pipe capacity, empty input (which hung) and too small buffers (which truncated) were not covered.",
  ['maa/pr.c'], [('select loop with non-blocking descriptors', 'maa/pr.c: pr_readwrite'), ('composition', 'maa/pr.c: pr_filter')], ['returned length and buffer', 'exit status', 'termination'])

p('C21', 'Errors are reported in the documented form and end as documented',
  "Every error report goes to standard error as the program name (the part of the name set after the last slash, if any), the routine in parentheses (just the routine and a colon if no program name is set) and the formatted message on one line, after pending standard output has been flushed; the same message, with its routine, also goes to every open log. "
  "A warning then returns, a fatal error exits with status 1, the errno variant adds the routine and the text of the error number current at the call, and an internal error says so, announces the abort and raises SIGABRT.",
  ['inputs', 'configurations'],
  "all program names, routines, formats and arguments of any length, all errno values, all combinations of open logs",
  "tests/err has eight fixed calls.",
  ['maa/error.c', 'maa/log.c'], [('formatting and termination', 'maa/error.c: err_fatal, err_fatal_errno, err_warning, err_internal'), ('program name', 'maa/error.c: err_set_program_name')],
  ['stderr and stdout text', 'exit status or signal', 'log contents'])

p('C22', 'Every log message reaches every open destination exactly once',
  "For any history of opening and closing log destinations (file, stream, syslog), each message logged while a destination is open appears there exactly once, in order, and in no closed one: files and ordinary streams get one line with time stamp, host, ident and process id (nothing of these if full logging is off), the routine in parentheses if there is one, and the message, syslog gets the formatted message with the right priority and the facility chosen when it was opened, and standard output and error get the bare message. "
  "Messages of any length are handled without overrun (the line buffer may cut a message off after 4095 bytes), an interrupted write is repeated, and a log file name is expanded for the current time so that a change of its expansion switches to the new file, creating missing directories and appending to an existing file. "
  "Opening an open destination is diagnosed and aborts, closing a closed one does nothing, and unknown facility names and log files that cannot be opened are a fatal error that names them.",
  ['inputs', 'histories', 'configurations', 'fault_sequences'],
  "all open/log/close histories, message lengths and formats, clock readings, time-dependent file names, interrupted writes",
  "tests/log writes three messages to one file.",
  ['maa/log.c'], [('message assembly and fan-out', 'maa/log.c: _log_base_va'), ('file name expansion and switch', 'maa/log.c: _log_check_filename'), ('destination state', 'maa/log.c: log_file, log_stream, log_syslog, log_close')],
  ['file, stream and syslog contents', 'abort with diagnostic'], [('log state', 'descriptor, stream, syslog flag, ident', 'maa/log.c statics')])

p('C23', 'Source positions always identify the right file, line and column',
  "For any sequence of line, file, renumbering, cpp line-marker and token operations, each token object keeps the file, line number, offset, length and full text (tabs replaced by blanks) that were current when it was taken, where each stored line increments the line number and resets the offset and each token advances the offset by its length. "
  "Printed errors, messages and lines show that file and line, and the marker line puts one caret under each column of the token; token names in parser messages are replaced by their registered readable form (the first one registered for a name), and messages of any length and shape are handled. "
  "The statistics count lines and tokens exactly, and the source manager can be destroyed and created again at any time, starting afresh.",
  ['inputs', 'histories'],
  "all operation sequences, line contents and message texts, any number of lines",
  "no existing test uses the source manager; a second use after 1000 lines corrupted memory.",
  ['maa/source.c', 'maa/parse-concrete.c'],
  [('position bookkeeping', 'maa/source.c: src_line, src_new_line, src_new_file, src_advance, src_get, src_cpp_line'),
   ('error display', 'src_parse_error, src_print_error, src_print_message, src_print_line'), ('symbol names', 'prs_register_concrete, prs_concrete')],
  ['src_filename, src_linenumber, src_offset, src_length, src_source_line', 'printed text', 'src_get_stats'],
  [('Info', 'current file, line, offset', 'maa/source.c statics')])

p('C24', 'Objects release all their memory and touch none they do not own',
  "In any history of using the library, destroying an object releases everything allocated on its behalf, so that after all objects are destroyed and the library is shut down nothing it allocated remains, and no operation reads or writes outside live memory or frees anything twice. "
  "Initialising and shutting the library down can be repeated in one process, each time giving a working library in its initial state; the shutdown prints the version, the statistics of the global string pool and the timers, as asked for by the flags .memory and .time. "
  "Data and keys supplied by the user are never freed or modified.",
  ['histories', 'inputs'],
  "all interleavings of creation, use and destruction of all object kinds, any number of init/shutdown cycles",
  "tests run each module once and exit; none checks memory balance, and they are not built with memory checking.",
  ['maa/maa.c', 'maa/hash.c', 'maa/set.c', 'maa/list.c', 'maa/stack.c', 'maa/sl.c', 'maa/memory.c', 'maa/string.c', 'maa/arg.c', 'maa/timer.c', 'maa/source.c', 'maa/parse-concrete.c', 'maa/pr.c', 'maa/log.c'],
  [('destroy functions of every module', 'maa/*.c: *_destroy'), ('module shutdown', 'maa/maa.c: maa_shutdown and the _*_shutdown functions')],
  ['every allocation and release made by the library', 'address sanitizer'])

p('C25', 'Invalid handles are diagnosed, not used',
  "Every operation on a hash table, set, list, skip list, argument list, string heap or object heap that is given NULL or a live object of another kind instead of its own kind of handle reports an internal error and aborts before it changes, releases or shows to a callback anything of the user's objects, except the documented no-ops (appending to a NULL list, iterating a NULL skip list). So does every operation with string keys that is given NULL as key, and setting a flag with NULL as name. "
  "Valid handles are never rejected.",
  ['inputs', 'configurations'],
  "every exported operation on a tagged object, every kind of wrong handle, in any state",
  "no existing test passes a wrong handle; several operations crashed on one.",
  ['maa/hash.c', 'maa/set.c', 'maa/list.c', 'maa/sl.c', 'maa/arg.c', 'maa/memory.c', 'maa/maa.h'],
  [('magic numbers', 'maa/maa.h: *_MAGIC'), ('checks', '_hsh_check, _set_check, _lst_check, _sl_check_list, _arg_check, _mem_magic_strings, _mem_magic_objects')],
  ['SIGABRT and the internal-error text on stderr'])

p('C26', 'Running out of memory is a clean fatal error at every allocation',
  "If any single memory allocation made by any library operation fails, the library reports the failed allocation on standard error and exits with status 1; it never crashes, hangs, goes on with a missing block, or reports success. "
  "The allocation wrappers return usable memory of the requested size (zeroed for the clearing one, contents preserved for the resizing one) and refuse to free NULL.",
  ['fault_sequences', 'histories'],
  "every allocation index of every generated operation history",
  "no existing test makes an allocation fail.",
  ['maa/xmalloc.c', 'maa/stack.c', 'maa/hash.c', 'maa/set.c', 'maa/list.c', 'maa/sl.c', 'maa/arg.c', 'maa/memory.c', 'maa/string.c', 'maa/source.c', 'maa/timer.c', 'maa/log.c'],
  [('checked allocation wrappers', 'maa/xmalloc.c'), ('their use by every module', 'maa/*.c')],
  ['exit status and stderr with the n-th allocation made to fail'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
