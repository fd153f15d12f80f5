#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [],
                          "hook_needed": None}})

PS = "src/include/falcon/engine/pagedstack.h"
FX = "src/include/falcon/futex.h"
LS, LSH = "src/engine/logsystem.cpp", "src/include/falcon/logsystem.h"
LT, LTH = "src/engine/logstream.cpp", "src/include/falcon/logstream.h"
LG, LGH = "src/engine/logger.cpp", "src/include/falcon/logger.h"
UT, TC, FUT = "src/fut/unittest.cpp", "src/fut/testcase.cpp", "src/include/falcon/fut/fut.h"

prop("C01", "PagedStack is a LIFO sequence whatever the page layout",
  "For every page size >= 1, every preallocation >= 1 and every sequence of single and multiple pushes, in-place constructions, pops with and without receiving the value, assignments to the top, clears and memory shrinks, the stack behaves as an unbounded last-in-first-out sequence: pops and top() give the most recently pushed live value, size() and empty() agree with the number of live values, and of several values pushed together the last is on top. Neither crossing a page boundary in either direction nor shrink_to_fit() ever loses, duplicates, reorders or revives a value.",
  ["inputs", "histories"], "all operation sequences up to a depth, over all small page sizes and preallocations, and macro-sequences over the default sizes",
  "the unit tests push and pop a few fixed sequences with one page layout; boundary bugs need a particular fill level plus a particular order of operations",
  [PS], [("page advance on push, page retreat on pop", PS+": advance(), internal_pop_one()"), ("clear()/shrink_to_fit()", PS)],
  [{"name": "current page", "meaning": "page that holds the top element", "where": PS+": m_curBase"}],
  ["top()", "pop(...)", "size()", "empty()"])
prop("C02", "PagedStack traversals visit exactly the live elements in order",
  "In every reachable stack, including after pops, clears and shrinks have left spare pages, forward iteration (const and non-const) visits the live elements once each from top to bottom and ends, reverse iteration visits them once each from bottom to top and ends, and from_top(n) starts at the n-th element from the top and reaches the top in n steps. Iterators can be stepped back and forth, moved by offsets and written through, consistently with that order.",
  ["inputs", "histories"], "all reachable layouts within the depth, all starting positions and step patterns",
  "tests iterate a few hand-built stacks; a traversal that runs into a spare page or stops at a page edge needs a particular history",
  [PS], [("iterators stop at the first/last live page", PS+": iterator_base, reverse_iterator_base, begin/end/rbegin/rend/from_top")],
  observe=["begin/end", "rbegin/rend", "from_top"])
prop("C03", "Multi-value peek and pop deliver each value to the documented place",
  "Multi-value pop and peek fill their parameters starting from the top element; peek_reverse, pop_reverse and peek_depth fill theirs bottom-up, starting respectively from the n-th element (n parameters) or from the given depth. The pops remove exactly the values delivered, the peeks change nothing, and this holds for every position of page boundaries inside the accessed range.",
  ["inputs", "histories"], "all stack heights x page sizes x arities x depths within the bound",
  "tests use one height and page size per method; the range read may straddle any page boundary",
  [PS, "src/include/falcon/engine/distribute.h"], [("distribute() walks an iterator over the parameters", "src/include/falcon/engine/distribute.h"), ("internal_from_top", PS)],
  observe=["peek", "peek_reverse", "peek_depth", "pop_reverse", "pop"])
prop("C04", "Discarding removes exactly what was asked and nothing comes back",
  "discard(n) removes exactly the n topmost values, and discard(position), with a forward or reverse iterator, removes the value at that position and everything above it; clear() removes everything. The remaining values are unchanged, and no removed value ever reappears in the size, a traversal, a peek or a pop after any later operations.",
  ["inputs", "histories"], "all heights x page sizes x discard positions/counts, followed by all short continuations",
  "tests discard at a few positions of one stack and do not go on using it; a page that is left but not emptied only shows when it is re-entered",
  [PS], [("discard(count)/discard(iterator)/clear()", PS+": internal_discard")], observe=["discard", "clear", "size", "iteration"])
prop("C05", "Synchronised iterators survive any modification of the stack",
  "A synchronised iterator (const or not, original or copy) can be used whatever was done to the stack since it was obtained: while the stack still reaches the iterator's position it yields the element there and steps to its neighbours, otherwise it moves to the current top, and if the stack is empty it throws (a stack whose content was moved away or taken over as a whole no longer reaches any earlier position); it never reads a removed element or released memory. While any such iterator exists a memory shrink is put off, and it takes place when the last one is gone.",
  ["histories", "schedules"], "all interleavings of stack operations with iterator creation, copy, stepping, reading and destruction up to a depth; two-thread interleavings",
  "the tests step one iterator through three fixed modifications; the failure needs a specific order of copy, shrink, pop and destruction",
  [PS], [("resync before each access", PS+": sync_iterator_base::synchronize"), ("iterator count defers the shrink", PS+": m_syncIterCount, m_shrinkRequest")],
  observe=["sync_iterator::get", "operator++/--", "getStats"])
prop("C06", "PagedStack keeps its contents through element faults and leaks nothing",
  "If creating or copying an element fails inside a push or in-place construction, that operation leaves the stack exactly as it was (for a multiple push: with only a leading part of the values pushed) and fully usable. If handing a value over to the caller fails inside a pop, or assigning one to the top, the value on the stack stays; if copying a whole stack fails, the source stays as it is and the target is a usable stack. Every element ever constructed is destroyed exactly once, at the latest with the stack, element destructors run when values are removed by pop, discard or clear, and the memory of pages is reused rather than growing with traffic.",
  ["fault_sequences", "histories"], "every operation sequence up to a depth with an element-construction or allocation fault at every possible point",
  "no test makes an element or an allocation fail; the fault has to hit exactly at a page boundary",
  [PS], [("page advance before construction", PS+": advance(), push_emplace")], observe=["live instance count", "top()", "getStats"])
prop("C07", "A PagedStack with a mutex is linearizable",
  "When the stack is built with a real mutex type (std::mutex or a Futex), concurrent push, pop, top assignment, peek, discard, clear, size, emptiness and statistics calls, copies of it, assignments to it and moves from it in several threads give results that some sequential order of those calls, compatible with their real-time order, would give, for every interleaving. No concurrent use of these calls is a data race.",
  ["schedules"], "all thread interleavings (bounded preemptions) of small client programs",
  "tests use the stack from one thread only, and a stress test samples a handful of schedules",
  [PS, FX], [("every public operation takes the stack's lock", PS+": m_mutex")], observe=["results of the calls"])
prop("C08", "Copies of a PagedStack, and stacks moved from, are independent",
  "A stack copied by construction or assignment holds the same sequence as the source, and from then on no operation on either one, nor its destruction, affects the other; both stay fully usable. A stack that is moved (by construction, assignment or std::swap) hands its whole sequence over; the stack moved from can be used, cleared, assigned to or destroyed, without effect on the new one, and no value is lost, doubled or destroyed twice.",
  ["histories"], "all operation sequences on source and copy up to a depth, for all small layouts",
  "no test copies or moves a stack",
  [PS], [("copy and move construction and assignment", PS)], observe=["size", "iteration", "push/pop on both"])
prop("C09", "Futex gives mutual exclusion and publishes the protected data",
  "At most one thread is between lock() and unlock() of a Futex or RFutex at any time, and everything written by a thread before unlock() is visible, without data race, to the thread whose lock() succeeds next, under every schedule, every contention pattern and every spurious failure of weak compare-and-swap. isLocked() is true exactly while some thread holds it.",
  ["schedules"], "all interleavings (bounded preemptions) of 2-3 threads, with spurious CAS failures, for every spin count class",
  "the tests run a few threads freely and would miss a reordering or a rare CAS outcome; RFutex is not tested at all",
  [FX, "src/engine/futex.cpp"], [("CAS loop with acquire/release ordering", FX+": lock()/unlock()")], observe=["critical-section overlap", "protected data"])
prop("C10", "Futex locking makes progress and yields as its spin count says",
  "lock() returns once the futex is free and no other thread takes it, it never blocks the system when the holder is runnable, and an unlock is never lost. With spin count 0 (the default) a waiter never yields the processor, with 1 it yields each time it detects contention, and with n>1 it yields each time n attempts failed, for as long as the contention lasts.",
  ["schedules", "configurations"], "all interleavings x spin counts; waiting periods longer than several spin rounds",
  "tests cannot observe yields or a lock that is starved only under a specific interleaving",
  [FX], [("spin counter and yield in the CAS loop", FX+": Futex::lock()")], observe=["return of lock()", "sched_yield calls"])
prop("C11", "RFutex is recursive and knows its owner",
  "A thread that owns an RFutex can lock it again without blocking, and the futex becomes free for others exactly when the owner has unlocked as many times as it locked; surplus unlocks on a free futex change nothing. isOwner() is true in exactly the thread that currently holds it, and isLocked() exactly while someone does, for every number of futexes, threads and nesting depths.",
  ["schedules", "histories"], "all lock/unlock sequences up to a depth from 2-3 threads on 1-2 futexes, in all interleavings",
  "there is no test of RFutex",
  [FX, "src/engine/futex.cpp"], [("owner id and nesting count", FX+": RFutex")], observe=["isOwner", "isLocked", "blocking of lock()"])
prop("C12", "The atomic primitives are atomic and return the documented value",
  "Concurrent calls of the atomic increment, decrement, add, set, fetch, exchange, compare-and-swap, xor, and, or on one 32-bit location are linearizable: the outcome of any concurrent program is that of some sequential order. Increment, decrement and add return the new value, exchange and the bitwise operations the previous one, and compare-and-swap reports whether it replaced the value, changing nothing if it did not.",
  ["schedules", "inputs"], "all pairs/triples of operations in concurrent programs, all interleavings, boundary operand values",
  "no test compiles these primitives; a non-atomic read-modify-write is invisible to sequential tests",
  ["src/include/falcon/atomic_gcc.h", "src/include/falcon/atomic.h"], [("compiler atomic builtins", "src/include/falcon/atomic_gcc.h")], observe=["return values", "final value"])
prop("C13", "A Singleton has one instance, built once, seen complete by all",
  "However many threads access a type's singleton for the first time concurrently, and through whichever accessor (get, dereference, arrow, mutable view), the instance is constructed exactly once, all accessors give that same object, and no thread sees it before its construction has completed. If the construction throws, a later access constructs it anew; distinct types have distinct instances.",
  ["schedules", "fault_sequences"], "all interleavings of first accesses by 2-3 threads x accessor kinds x construction failures",
  "tests access it from one thread after construction",
  ["src/include/falcon/singleton.h"], [("guarded function-local static", "src/include/falcon/singleton.h: get()")], observe=["construction count", "addresses", "object contents"])
prop("C14", "Logging delivers every accepted message exactly once, in order, intact",
  "While the logging service runs, each message whose level passes the system level is delivered exactly once to every enabled, attached, accepting listener that was added before the message was logged, in the order messages were accepted (in particular each thread's messages in its program order and in the same order for all listeners), with file, line, level, category and text exactly as given. Messages above the system level are never delivered, and logging calls never wait for listeners.",
  ["schedules", "histories"], "all interleavings (bounded preemptions) of 1-3 logging threads with the service thread",
  "the tests log a few messages from one thread and wait; loss, duplication or reordering need a specific interleaving with the service thread",
  [LS, LSH], [("message queue with lock and condition variable", LS+": log(), loggingThread()")], observe=["Listener::onMessage"])
prop("C15", "The log service can be started and stopped at any time without hanging",
  "Construction with or without immediate start, start(), stop(), and destruction terminate under every interleaving, in every order and repetition, with or without pending messages and with concurrent logging; no listener is called while the service is stopped or after destruction, and at most one service thread runs. After a stop, start() resumes delivery, and messages accepted while stopped are delivered then, once and in order.",
  ["schedules", "histories"], "all start/stop/log/destroy sequences up to a depth, in all interleavings",
  "tests start once and stop once by destruction; lost wake-ups and restarts are never exercised",
  [LS], [("termination flag and join", LS+": start(), stop(), ~LogSystem()")], observe=["termination of the calls", "onMessage"])
prop("C16", "Listeners join and leave the log stream cleanly",
  "A listener added before a message is logged receives it (filters permitting), one detached or disabled before a message is logged does not, and adding, detaching, enabling and disabling listeners concurrently with logging never loses, repeats or reorders messages for the other listeners. A detached listener is released by the service after a later message has been handled, and never called again.",
  ["schedules", "histories"], "all interleavings of listener management with logging; all management sequences up to a depth",
  "tests add one listener and detach it at the end",
  [LS], [("pending and active listener lists", LS+": addListener(), processNewListeners(), cleanupTerminatedListeners()")], observe=["onMessage", "listener lifetime"])
prop("C17", "A listener receives a message exactly when its filters accept it",
  "A listener is called for a message if and only if the listener is enabled, the message level is not above the system level nor the listener's level, and the message has no category, or the listener has no category filter, or the whole category matches the listener's regular expression; a proxy listener hands exactly what it accepts to its target, whatever the target's own settings. Setting an invalid expression throws InvalidCategory and leaves the previous filter in force; the log service itself writes nothing to the standard streams.",
  ["inputs", "configurations"], "the full product of system level x listener level x message level x enabled x filter x category, in all positions of a message sequence",
  "tests check a few combinations of levels and one regular expression",
  [LS, LSH, "src/include/falcon/logproxy.h"], [("filters in dispatch", LS+": sendMessageToListeners(), checkCategory()")], observe=["onMessage"])
prop("C18", "Message storage is conserved and diagnostics tell the truth",
  "Under any traffic and interleaving, every message allocated is either queued, being delivered, or back in storage, none is released twice or used after release, and nothing is leaked when the system is destroyed, also with messages pending. At quiescence the diagnostics report the exact number of messages processed, created beyond the pool and discarded, the longest queue, and the pending, active and enabled listeners, with never more than the threshold kept in the pool.",
  ["schedules", "histories"], "all interleavings of small producer programs; bursts around the pool threshold",
  "tests look at the counters after one fixed burst; leaks are never looked for",
  [LS], [("message pool", LS+": allocateMsg(), disposeMsg(), getDiags()")], observe=["getDiags", "allocation balance"])
prop("C19", "Every logging call is free of data races with the log service",
  "Changing levels, category filters, enablement and output streams, adding and detaching listeners, reading back the settings and reading the diagnostics may be done from any thread while other threads log and the service delivers, without data race, deadlock or access to released objects. A value read back is always one that was set.",
  ["schedules"], "all interleavings (bounded preemptions) of every pair of API calls with logging and delivery, with happens-before race detection on every access",
  "a race only shows under a particular schedule, and rarely as a wrong result",
  [LS, LSH, LTH], [("locks and atomics around shared state", LSH)], observe=["race detector", "returned values"])
prop("C20", "Stream listeners write whole, correctly formatted lines",
  "Each message delivered to a stream listener is written, and flushed at once, as exactly one line 'YYYY-MM-DD hh:mm:ss [LEVL] (category) file:line text', with zero-padded local time (whatever other threads ask of the calendar functions), the category part only if there is one, and the file without its directory, independent of the formatting flags, fill and locale set on the stream, which stay as they were. When the output stream is changed (owned, shared or borrowed) at any moment of a delivery, by one thread or by several at once, each line goes completely to the old or completely to the new stream, later lines go to the new one, and a stream handed over is not used after it is replaced or destroyed while in use. Nothing else is written: the standard streams are used only if a listener was told to.",
  ["inputs", "schedules"], "all levels x categories x path shapes x calendar edge dates; all interleavings of stream changes with deliveries",
  "tests match one line with a regular expression at the current date",
  [LT, LTH], [("formatting under the stream lock", LT+": onMessage()"), ("own/share/writeOn", LTH)], observe=["text written to the stream"])
prop("C21", "Each log statement emits one message with exactly its own content",
  "Every log statement or log block that passes the level produces exactly one message whose text, level, file, line and category are its own: nothing leaks between statements, threads, or nested statements (a statement or block that logs while being composed), also when composition is left by an exception, break or return, and stream formatting set in one statement does not affect another. A filtered-out block is not executed; the thread's category applies to its own statements only, and a temporary category to a single message.",
  ["schedules", "histories", "programs"], "all sequences and nestings of statement kinds up to a depth; all interleavings of two composing threads",
  "tests log simple consecutive statements in one thread",
  [LGH, LG], [("thread-local composition state", LGH+": AutoEnd, BlockEnd, commit()")], observe=["messages received by a listener"])
prop("C22", "Category filters are set and cleared without disturbing the logger",
  "After categoryFilter(expr, level) the default output carries its ordinary messages plus the messages up to that level whose category matches, and nothing else that was filtered out before; setting another filter replaces the first one. clearFilter() restores the logger's previous levels and behaviour, is harmless when no filter is set, and an invalid expression throws and changes nothing.",
  ["histories"], "all sequences of filter set/replace/clear/level changes and log calls up to a depth",
  "one test sets and clears one filter",
  [LG, LGH], [("proxy listener and saved level", LG+": categoryFilter(), clearFilter()")], observe=["lines on the default stream", "level()"])
prop("C23", "Compile-time and runtime log levels combine as a conjunction",
  "For every compile-time minimum level and every runtime level, a log statement or block is evaluated and emitted if and only if its level is within both; otherwise none of its block is executed and nothing is formatted or emitted, and with logging disabled at compile time nothing is ever emitted. The category macro takes effect whenever any logging is compiled in, and the header may be included in any number of translation units.",
  ["configurations"], "the full product of compile-time level x runtime level x statement level x statement kind",
  "tests are built with one compile-time level",
  [LGH], [("level comparisons in the macros", LGH+": LOG, LOG_BLOCK, LOG_CATEGORY")], observe=["messages", "side effects of blocks"])
prop("C24", "Items convert their value faithfully",
  "An item built from any supported type and value reports the matching type name and gives back that value: get<T>() returns it, toString() renders it (the same way whatever the locale of the application), toInt() gives its integer value (0 for nil, 1/0 for booleans, truncation for floats, the leading number of a string and 0 if there is none), and toBool() tells whether it is non-null, non-zero or non-empty. Conversions declared not to throw never terminate the program, and unsupported types are rejected with an exception.",
  ["inputs"], "all supported types x boundary values; all strings up to a length over a covering alphabet",
  "tests convert one or two values per type",
  ["src/include/falcon/engine/item.h", "src/include/falcon/engine/itemdata.h", "src/include/falcon/engine/stringhandler.h"], [("type dispatch in Item and per-type handlers", "src/include/falcon/engine/item.h")], observe=["get/toString/toInt/toBool/typeName"])
prop("C25", "Items own their value: copies are independent, nothing leaks",
  "Items of any type can be copied, assigned (also to themselves and across types), stored in containers and destroyed in any order: each keeps its own value, a change or destruction of one never affects another, and every value allocated is released exactly once.",
  ["histories"], "all sequences of create/copy/assign/destroy over a few slots and all types up to a depth",
  "tests build one item and let it die",
  ["src/include/falcon/engine/item.h", "src/include/falcon/engine/deephandler.h"], [("handler-based destruction and copy", "src/include/falcon/engine/item.h")], observe=["values", "memory checker"])
prop("C26", "Type handlers allocate, classify and release values consistently",
  "Each built-in handler's allocate() yields that type's neutral value (nil, false, 0, 0.0, empty string, big number zero), usable with its own conversions and released by its own destroy() exactly once. Flat types own no memory and report themselves flat, string and big number report themselves not flat but flat on copy, and every handler reports its own type name.",
  ["inputs", "histories"], "all handlers x all allocate/use/destroy sequences up to a depth",
  "no test calls the handlers directly",
  ["src/include/falcon/engine/deephandler.h", "src/include/falcon/engine/flathandler.h", "src/include/falcon/engine/itemdata.h", "src/engine/handlerfactory.cpp"], [("allocate/destroy pairs", "src/include/falcon/engine/deephandler.h")], observe=["conversions of allocated data", "memory checker"])
prop("C27", "Compiled code gives back its source, whatever its size or copying",
  "Code built from any source text, of any length and with any bytes, returns exactly that text, and compiling a stream yields the code of its first whitespace-delimited word, consuming just that word (empty code if there is none; a stream that reports its state by exceptions, or breaks, reports that to the caller). Codes can be copied, assigned, self-assigned, moved from and destroyed in any order, each remaining valid and independent, with no leak or double release.",
  ["inputs", "histories"], "lengths around every internal limit, all short byte strings over a covering alphabet, all copy/move/assign/destroy sequences up to a depth",
  "one test compiles one short word",
  ["src/engine/code.cpp", "src/engine/compiler.cpp"], [("source storage and copy operations", "src/engine/code.cpp")], observe=["toString()", "memory checker"])
prop("C28", "A test run's verdicts, exit status and counts match what the tests did",
  "A test passes if and only if no check failed in it, it did not declare itself failed, it threw nothing, and (while output is captured) it wrote nothing to the error stream; the run's result is zero if and only if every selected test passed. This verdict depends on nothing but that test's own latest execution: not on other tests, their order, the verbosity, or earlier runs, and every selected test (all tests added so far, if none is selected) is run exactly once per run, also after another one failed or threw, a test defined with the framework's macros being one of them under the name given.",
  ["inputs", "histories", "configurations"], "all assignments of behaviours to a set of tests x options x repeated runs",
  "the framework's own smoke tests exercise one behaviour at a time",
  [UT, TC, FUT], [("definition macros", FUT), ("status bookkeeping", TC+": run()"), ("result aggregation", UT+": runAllTests(), hasPassed()")], observe=["performUnitTests/performTest result", "status()"])
prop("C29", "Fixtures and standard streams are set up and restored around each test",
  "Each test's SetUp runs before and TearDown after its body, exactly once per execution unless SetUp or the body throws, on that test's own fixture instance. Standard output and error are captured per test, the captured text is exactly what that execution wrote, and when the test ends, however it ends, the original streams are back in place with the formatting they had; with capture off they are never touched.",
  ["inputs", "histories"], "all behaviours (pass, fail at each place, throw at each place, write out/err) in sequence, with and without capture",
  "tests check one fixture that passes",
  [TC], [("stream redirection", TC+": beginTest()/endTest()"), ("run order", TC+": run()")], observe=["call order", "std::cout/std::cerr buffers", "capturedOut/capturedErr"])
prop("C30", "The XML report is well-formed and agrees with the run",
  "For every combination of test outcomes and texts (names, messages and captured values containing any printable characters, quotes, markup characters or line breaks), the XML report is a well-formed document, also where a text holds control characters or bytes that are not UTF-8, whatever the locale and the state of the standard streams. It lists exactly the selected tests grouped by component, with correct test and failure totals, marks exactly the failing ones as failures, and carries their message unaltered.",
  ["inputs"], "all outcome combinations x message texts from a covering alphabet",
  "no test reads the report",
  [UT], [("report writer", UT+": saveToXML()")], observe=["XML file"])
prop("C31", "The command line selects and configures exactly what it says",
  "For every option sequence, exactly the tests named by -t are run (all tests if there is none; an unknown test, unknown option or invalid value yields a non-zero result and no silent success), -q and -v set the amount of output as documented without changing verdicts, -n/-i/-x set name, id and report file, and -h shows the help. The final report names as failed exactly the failing tests that were run.",
  ["inputs", "configurations"], "all option sequences up to a length from the documented options, valid and invalid values",
  "tests run with no or one option",
  [UT], [("parseParams and report", UT)], observe=["tests run", "output", "result"])
prop("C32", "The check macros decide, report and stop as documented",
  "Each EXPECT macro fails the running test exactly when its relation does not hold for its arguments, evaluated as complete expressions, whatever their form; comparison checks that fail end the test body at that point, and the failure records the file, the line, the expression text and the actual value. The exception checks fail exactly when the expression's throwing behaviour is not the one required.",
  ["inputs", "programs"], "all macros x all value pairs from boundary sets x argument forms",
  "the framework's own tests check each macro once or twice",
  [FUT, TC], [("check macros", FUT)], observe=["status()", "failDesc()", "failLine()"])
prop("C33", "Durations reported by the test framework are those that elapsed",
  "The time reported for a test, a component or a run (elapsedTime(), elapsedTimeNow(), the console report and the XML report) is the time that its parts really took, whatever the outcome, the duration and the time of day, and again in each further run; a test that fails in its SetUp is not charged with anything else, one that has not run with nothing. waitTime() waits at least as long as it is told, whatever the length and the signals that arrive meanwhile, and no time if told zero or less.",
  ["inputs", "fault_sequences", "histories"], "all outcomes x durations of the parts of tests x clock readings, under a controlled clock; all points where a signal can interrupt a wait",
  "the tests time a few waits of 0.1 to 1 s on the real clock",
  [TC, UT, "src/fut/marktime-unix.c++"], [("time marks around a test", TC+": run()"), ("duration", "src/include/falcon/fut/timelapse.h: elapsed()"), ("waiting", "src/fut/marktime-unix.c++: waitTime()")], observe=["elapsedTime()", "console report", "XML report", "virtual clock"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
