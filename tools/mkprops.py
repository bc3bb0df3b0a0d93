#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; regenerates the file)."""
import json, os
I = "cpp_utils/include/cpp_utils/"
S = "cpp_utils/src/cpp/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    
    if len(title) > 80: print("LONG", id, len(title), title)
    P.append(d)


# ---------------------------------------------------------------- memory
p("C01", "Owned data is never destroyed while a lessee guard is alive, on any schedule",
  "Data held by an owning pointer is destroyed exactly once, by its owner's reset, move-over or destruction, and never while any thread holds a guard obtained from one of its lessees or is inside a call made through a lessee. "
  "Releasing the owner waits for live guards and always completes once they are gone; after it, every lessee reports the data as gone and can no longer lock it. "
  "Concurrent locks, releases, copies and moves of different lessees are free of data races.",
  ["schedules", "histories"],
  "all interleavings of 2-4 threads that lease, lock, guard, copy, move, dereference and release owner/lessee/guard objects",
  "Tests drive one fixed script with sleeps; the reference and lock counts matter only at particular interleavings of release against lock.",
  [I + "memory/impl/InternalPtrData.ipp", I + "memory/impl/LesseePtr.ipp", I + "memory/impl/OwnerPtr.ipp", I + "memory/impl/GuardedPtr.ipp"],
  [("shared mutex held by guards", I + "memory/impl/InternalPtrData.hpp"), ("owner release takes the unique lock", I + "memory/impl/InternalPtrData.ipp")],
  ["destruction of the pointee", "value read through a guard", "return of the owner's release"])

p("C02", "Owner, lessee and guard pointers follow the ownership model on every history",
  "After any sequence of construct, reset, lease, copy, move, lock and destroy operations on owning pointers, lessees and guards, each handle is valid or null exactly as the ownership model says, gives the right object, and comparisons with null agree with validity. "
  "Every owned object is destroyed exactly once, with its own deleter, at the moment its owner lets it go. "
  "Access through a lessee whose data is gone raises the documented value-access error, and locking it yields a null guard.",
  ["histories"], "all single-threaded histories over several owners, lessees and guards, with custom deleters",
  "The tests walk a few scripted histories of at most a handful of steps; moved-from and self-assigned handles only differ on particular multi-step histories.",
  [I + "memory/impl/OwnerPtr.ipp", I + "memory/impl/LesseePtr.ipp", I + "memory/impl/GuardedPtr.ipp"],
  [("shared internal block with deleter", I + "memory/impl/InternalPtrData.hpp")])

p("C03", "A heritable value keeps its dynamic type and is shared by its copies",
  "A heritable holder behaves as a polymorphic value that is not sliced: a holder built from an object of a derived class keeps the derived behaviour, copies of a holder refer to the same object, moving transfers it, and the object is destroyed exactly once, with its last holder. "
  "Holders compare by the values of their objects, and asking for a derived type succeeds exactly when the dynamic type allows it.",
  ["histories"], "all histories of construction, copy, move, assignment, mutation and downcast over holders of a small class hierarchy",
  "Existing tests only exercise a fixed script, without aliasing or leak checks across long copy/move chains.",
  [I + "memory/Heritable.hpp", I + "memory/impl/Heritable.ipp"],
  [("owning pointer to the most derived object", I + "memory/Heritable.hpp")])

# ---------------------------------------------------------------- collection
p("C04", "The safe database is a linearizable map",
  "Every concurrent history of add, add-or-modify, modify, erase, get, exists, size and iteration operations on a safe database has a sequential explanation in which each operation behaves as on a plain map. "
  "Adding an existing key or modifying or erasing a missing one reports failure and changes nothing; reading a missing key raises the documented error; no history contains a data race.",
  ["histories", "schedules"], "all sequential histories against a map model and all interleavings of 2-4 threads with a few operations each",
  "Tests use a handful of sequential calls; atomicity of compound operations shows only under interleaving.",
  [I + "collection/database/SafeDatabase.hpp", I + "collection/database/impl/SafeDatabase.ipp"],
  [("shared mutex around every operation", I + "collection/database/impl/SafeDatabase.ipp")])

p("C05", "Database iterators keep the collection stable and always release it",
  "While an iterator of a safe database is alive no other thread can change the collection, so a traversal visits exactly the elements present when it was created, each once, in key order. "
  "Copying, moving or destroying iterators never releases more than was acquired nor leaves the collection locked: once the last iterator is gone, writers proceed.",
  ["histories", "schedules"], "all histories of creating, copying, advancing, comparing and destroying iterators, interleaved with writers",
  "Tests traverse once in a single thread; lock leaks and double releases need iterator copies and a concurrent writer.",
  [I + "collection/database/SafeDatabase.hpp", I + "collection/database/impl/SafeDatabase.ipp"],
  [("iterator holds the shared lock for its life", I + "collection/database/SafeDatabase.hpp")])

# ---------------------------------------------------------------- wait
p("C06", "A wait returns the reason that is true, and no wake-up is lost",
  "A thread waiting on a boolean or integer wait handler returns 'condition met' only if the awaited condition held at some instant during the wait, 'disabled' only if the handler was disabled during it, and 'timeout' only once the given time has elapsed. "
  "If the condition becomes and stays true, or the handler becomes and stays disabled, the waiting thread always returns. "
  "Value updates (set, increment, decrement) are atomic and the value observed at the end equals the sum of them.",
  ["schedules", "histories"], "all interleavings of waiters (with and without timeout, all comparison conditions) with setters, enablers and disablers",
  "Tests sleep and wake in one order; a lost wake-up needs the notification to fall between the check and the sleep.",
  [I + "wait/WaitHandler.hpp", I + "wait/impl/WaitHandler.ipp", S + "wait/BooleanWaitHandler.cpp", S + "wait/IntWaitHandler.cpp"],
  [("condition variable with predicate under one mutex", I + "wait/impl/WaitHandler.ipp")])

p("C07", "Disabling a wait handler releases every waiter; blocking disable waits for them",
  "Disabling or destroying a wait handler releases every thread waiting in it, as long as it is not enabled again meanwhile; a blocking disable (and destruction) returns only when no thread is still inside a wait and always returns. "
  "A disabled handler makes waits return 'disabled' at once until enabled again, enabling restores normal waits, and stop-and-continue releases every thread waiting at that moment and leaves the handler enabled.",
  ["schedules"], "all interleavings of waiters, repeated enable/disable/blocking-disable and destruction, for boolean, integer, counter and generic handlers",
  "Existing tests use one waiter and sleeps.",
  [I + "wait/impl/WaitHandler.ipp", S + "wait/CounterWaitHandler.cpp"],
  [("waiting-thread count and blocking disable loop", I + "wait/impl/WaitHandler.ipp")])

p("C08", "A counter wait handler hands out exactly its permits and wakes on the threshold",
  "Each successful wait on a counter wait handler consumes exactly one unit above the threshold: the number of successful waits plus the final value always equals the initial value plus the increments, and no wait succeeds when the value is not above the threshold. "
  "As long as units are available no waiter stays blocked, and a thread waiting for the value to come down to the threshold is released when it is reached.",
  ["schedules", "histories"], "all interleavings of several waiters with increments, decrements, disable and threshold waits, for any threshold and initial value",
  "Tests use a single order of waits and increments; double-consumption and stuck waiters need races between waiters.",
  [I + "wait/CounterWaitHandler.hpp", S + "wait/CounterWaitHandler.cpp"],
  [("wait-and-decrement under the handler mutex", S + "wait/CounterWaitHandler.cpp")])

p("C09", "The waiting queue delivers every element exactly once and in order",
  "Every element produced into a consumer wait handler is consumed exactly once, none is invented or lost, and the elements of one producer are consumed in the order it produced them. "
  "The reported number of elements never counts an element more than once and is exact when nothing is in progress.",
  ["schedules", "histories"], "all interleavings of several producers (copy and move) and several consumers",
  "Tests use one fixed producer/consumer order; element loss happens at queue swaps under contention.",
  [I + "wait/ConsumerWaitHandler.hpp", I + "wait/DBQueueWaitHandler.hpp", I + "wait/impl/ConsumerWaitHandler.ipp", I + "wait/impl/DBQueueWaitHandler.ipp"],
  [("counter permits plus double-buffer queue", I + "wait/impl/ConsumerWaitHandler.ipp")])

p("C10", "Consuming ends in data, a disabled error or a timeout error, never a hang",
  "Consuming from a waiting queue returns an element when one is available, raises the disabled error when the queue is or becomes disabled, and raises the timeout error only when no element arrived in the given time. "
  "Waiting for everything to be consumed returns only when every element produced before has been claimed by a consumer, or the queue was disabled, and does return then.",
  ["schedules"], "all interleavings of consumers with and without timeout, producers, wait-all-consumed callers, disable and enable",
  "Existing tests never combine disable, timeouts and concurrent consumers.",
  [I + "wait/ConsumerWaitHandler.hpp", I + "wait/impl/ConsumerWaitHandler.ipp"],
  [("translation of wait reasons into errors", I + "wait/impl/ConsumerWaitHandler.ipp")])

p("C11", "The double-buffered queue is a FIFO between a producer and a consumer side",
  "Elements pushed to the double-buffered queue are popped in push order, each exactly once, with buffer swaps made at any point by the consumer side. "
  "Emptiness and sizes of both sides always agree with the pushes, pops, swaps and clears made, and pushing concurrently with popping and swapping is free of data races.",
  ["histories", "schedules"], "all histories of push, pop, front, swap, clear, sizes against a two-list model, and concurrent producers with one consumer",
  "There is no test of swap against concurrent push.",
  [I + "queue/DBQueue.hpp"], [("foreground/background queues with a mutex each", I + "queue/DBQueue.hpp")])

# ---------------------------------------------------------------- threads
p("C12", "A slot thread pool runs every emitted task the right number of times",
  "Every emission of a registered slot made to an enabled thread pool executes that slot's routine exactly once, no other routine runs, and no more routines run at the same time than there are pool threads. "
  "Disabling the pool or destroying it joins its threads after the routines in progress, after which nothing runs; enabling it again resumes execution, also of what was emitted and had not run. "
  "Emitting an unregistered identifier or registering one twice raises the documented error and has no effect.",
  ["schedules", "histories"], "all interleavings of emitters and slot registrations with enable/disable cycles and destruction from one controlling thread, for 1-3 pool threads",
  "Tests emit from one thread and sleep; loss or double execution occurs at the races with disable and enable.",
  [I + "thread_pool/pool/SlotThreadPool.hpp", S + "thread_pool/pool/SlotThreadPool.cpp"],
  [("task queue with permits, slot map under mutex", S + "thread_pool/pool/SlotThreadPool.cpp")])

p("C13", "Task identifiers are unique, also across threads",
  "Identifiers handed out for tasks never repeat within a process and are never the reserved invalid ones, whatever threads ask for them and in whatever order.",
  ["schedules"], "all interleavings of several threads asking for identifiers",
  "No test asks from more than one thread.",
  [I + "thread_pool/task/TaskId.hpp", S + "thread_pool/task/TaskId.cpp"], [("atomic counter", S + "thread_pool/task/TaskId.cpp")])

# ---------------------------------------------------------------- events
p("C14", "An event handler calls back once per event while set, and never after",
  "Between setting a callback and unsetting it, each event that occurs calls the callback in force exactly once with the event's data; before it is set and after unsetting returns, no call happens. "
  "The event count equals the number of calls that have been made, waiting for n events returns once n calls have been made and not before, and unsetting or destroying the handler releases threads waiting for events. "
  "Classes built on it are told, one change at a time, whenever a callback is set, replaced or unset, and only then.",
  ["schedules", "histories"], "all interleavings of event sources with set, unset, replace, wait-for-event and destroy",
  "Tests trigger events sequentially from one thread.",
  [I + "event/EventHandler.hpp", I + "event/impl/EventHandler.ipp"],
  [("callback guarded by the event mutex, counter wait handler", I + "event/impl/EventHandler.ipp")])

p("C15", "A periodic handler fires once per period while enabled and stops when told",
  "While a callback is set, a periodic handler calls it once per elapsed period, each period starting when the previous call has ended, and never sooner; a period of zero is rejected at construction. "
  "After unsetting the callback or destroying the handler no further call happens and its thread ends, without waiting for the period in course, also when that races with a firing; setting a callback again resumes the firings.",
  ["schedules", "histories"], "all schedules, on a virtual clock, of set/unset/destroy histories racing with the periodic thread, for any period",
  "Tests use wall-clock sleeps with coarse tolerances and cannot place a stop inside a firing.",
  [I + "event/PeriodicEventHandler.hpp", S + "event/PeriodicEventHandler.cpp"],
  [("timer thread waiting on a timed condition", S + "event/PeriodicEventHandler.cpp")])

p("C16", "A signal event handler is called for every caught signal while registered",
  "Every delivery of a signal after a handler has been registered for it leads to the callbacks of all handlers registered for that signal, each called with that signal's number and only for that signal. "
  "After its callback is unset or it is destroyed a handler is not called any more, and the other handlers of that signal still are. A program that has used handlers ends as usual.",
  ["histories"], "all histories of registering, unregistering and destroying handlers of several signals interleaved with signal deliveries",
  "The existing tests raise one signal to one handler.",
  [I + "event/SignalEventHandler.hpp", I + "event/SignalManager.hpp", I + "event/impl/SignalManager.ipp", I + "event/impl/SignalEventHandler.ipp"],
  [("process-wide manager thread dispatching to callbacks", I + "event/impl/SignalManager.ipp")])

p("C17", "Line input delivers exactly the lines the keystrokes edit",
  "For any byte sequence of printable characters, line ends, backspaces, cursor and history keys typed on the source stream given, the callback receives, in order and once each, exactly the lines that a reference line editor with the same history produces; the end of the input ends the reading and may drop an unfinished line. "
  "The number of lines delivered never exceeds the number of reads asked for, stopping the handler at any point ends its thread without further calls, and the terminal is left in the mode it was found.",
  ["inputs", "histories"], "all sequences of keystrokes (including escape sequences cut short) and all read-count histories",
  "The tests feed a few whole lines without editing keys.",
  [I + "event/StdinEventHandler.hpp", S + "event/StdinEventHandler.cpp"],
  [("key-by-key state machine with history buffer", S + "event/StdinEventHandler.cpp")])

p("C18", "Log event handlers see each log entry of their kinds exactly once",
  "While its callback is set, a log event handler calls it exactly once for each log entry the logging module delivers, with that entry's text, kind and category; the severe handler only for entries at least as severe as its threshold. "
  "Entries delivered before the callback is set or after it is unset cause no call, and destroying the handler while entries are being delivered is safe and leaves no call after it.",
  ["schedules", "histories"], "all histories of log emissions of every kind with set/unset/destroy of several handlers, and their races with the delivery thread",
  "Those tests need the real logging library and only check one order.",
  [I + "event/LogEventHandler.hpp", I + "event/LogSevereEventHandler.hpp", S + "event/logging/LogEventHandler.cpp", S + "event/logging/LogSevereEventHandler.cpp", S + "event/logging/LogConsumerConnection.cpp"],
  [("log consumer connection forwarding entries", S + "event/logging/LogConsumerConnection.cpp")])

p("C19", "A multiple event handler fires once for each event of each registered handler",
  "A multiple event handler calls its callback exactly once for every event of every handler registered in it, from whatever thread it comes and in whatever order, while its callback is set. "
  "Unsetting or destroying it silences all of them, and no event is delivered to a destroyed callback.",
  ["schedules", "histories"], "all interleavings of events in 1-4 registered handlers with registration, set, unset and destruction",
  "Existing tests raise events one after another.",
  [I + "event/MultipleEventHandler.hpp", I + "event/impl/MultipleEventHandler.ipp", S + "event/MultipleEventHandler.cpp"],
  [("handlers registered with a forwarding callback", I + "event/impl/MultipleEventHandler.ipp")])

p("C20", "A file watcher reports changes of its file and nothing else",
  "After a file watcher is created on an existing file, every modification of that file by writing to it is followed by at least one call of its callback with that file's name, and no call happens without a change of that file (opening or reading it is none), whatever happens to its siblings. "
  "Unsetting the callback or destroying the watcher stops the calls, and destruction always completes. A watcher whose file cannot be watched is silent, keeps nothing open, and watches once it is set again when it can.",
  ["histories"], "all histories of writes, sibling changes and set/unset/destroy in a scratch directory, under random schedules of the watcher's threads",
  "Tests write a file once and sleep.",
  [I + "event/FileWatcherHandler.hpp", S + "event/FileWatcherHandler.cpp", "thirdparty/filewatch/FileWatch.hpp"],
  [("inotify watcher thread", "thirdparty/filewatch/FileWatch.hpp")])

# ---------------------------------------------------------------- user interface
p("C21", "Command history navigation follows the reference history model",
  "For any sequence of adding commands and asking for the previous or next one, the history returns exactly what a list-with-cursor model returns: the most recent first going back, stopping at the oldest, and an empty line past the newest. "
  "Adding a command resets the position to the newest; empty commands are not stored, duplicates are, and no sequence reads outside the stored commands.",
  ["histories"], "all histories of add, previous and next, including on an empty history",
  "There is no test of this component.",
  [I + "history/CommandHistoryHandler.hpp", S + "history/CommandHistoryHandler.cpp"], [("vector with index", S + "history/CommandHistoryHandler.cpp")])

p("C22", "A command reader parses every line to the command and arguments the user typed",
  "A typed line yields the command whose name is its first word and the remaining words as arguments, with a double-quoted stretch forming one argument with its spaces kept and the quotes removed; two consecutive spaces enclose an empty argument. "
  "A line whose first word is no known command is reported as such, with its words, and the reader goes on; lines are read in order, each once.",
  ["inputs", "histories"], "all lines of words, quoted stretches and spaces over all command sets",
  "The tests try three commands, never quoted.",
  [I + "user_interface/CommandReader.hpp", I + "user_interface/impl/CommandReader.ipp"],
  [("split by spaces, join quoted, enumeration builder", I + "user_interface/impl/CommandReader.ipp")])

# ---------------------------------------------------------------- utils
p("C23", "Byte quantities parse and print exactly",
  "Parsing a number with a unit (B, KB..PB, KiB..PiB, any letter case, optional spaces and decimals) gives the number of bytes it denotes, rounded down to whole bytes; anything else, including quantities that do not fit 64 bits, raises the invalid-argument error and never undefined behaviour. "
  "Printing a number of bytes picks the largest decimal unit not above it and a number with at most two decimals within one hundredth of the exact quotient, so that parsing the print gives the number back within that rounding.",
  ["inputs"], "all strings near the grammar and all 64-bit values, with boundary values of every unit",
  "The tests try a few round values.",
  [I + "utils.hpp", S + "utils.cpp"], [("regular expression and unit table", S + "utils.cpp")])

p("C24", "Base64 encoding is the standard one and decoding inverts it",
  "Encoding any byte string gives exactly the standard padded base64 text, and decoding that text gives back the same bytes. "
  "Decoding arbitrary text never misbehaves: it decodes the longest prefix made of alphabet characters.",
  ["inputs"], "all byte strings of any length (all remainders mod 3, bytes above 127) and all texts",
  "The repository has no round-trip test over arbitrary bytes.",
  [I + "utils.hpp", S + "utils.cpp"], [("6-bit accumulator", S + "utils.cpp")])

p("C25", "String helpers agree with their reference definitions",
  "Replacing (first and all, from left to right without overlapping), stripping, splitting, changing case and zero-padding of numbers give exactly the result of their plain definitions on every input, always terminate, and report the number of changes made. "
  "Splitting loses nothing: joining the parts with the delimiter gives the source back and no part contains the delimiter; zero-padding without permission to grow fails exactly when the number does not fit.",
  ["inputs"], "all strings over small alphabets, including overlapping and self-reproducing patterns, and all integers and widths",
  "Tests use one or two examples each, none with replacement text containing the pattern.",
  [I + "utils.hpp", S + "utils.cpp"], [("find and replace loops", S + "utils.cpp")])

p("C26", "Wildcard matching agrees with a reference matcher",
  "Matching a pattern with *, ? and bracket expressions against a text gives the verdict of an independent reference matcher in which * matches any stretch, ? any one character and brackets any listed character, for the whole text; a backslash is an ordinary character. "
  "A text always matches itself when it has no special characters, and matching never fails or misbehaves on any input.",
  ["inputs"], "all patterns and texts over a small alphabet including separators, dots and backslashes",
  "The tests list some pattern/text pairs.",
  [S + "utils.cpp", I + "utils.hpp"], [("fnmatch without escapes", S + "utils.cpp")])

p("C27", "File helpers read exactly what the file holds and report access truthfully",
  "Reading a file gives its lines in order, whole, with only their carriage returns and, when asked, the empty lines left out; reading it to one text ends every line with a line feed. A file that cannot be read raises the precondition error. "
  "The accessibility query is true exactly when the path exists and the process has every one of the requested permissions.",
  ["inputs", "configurations"], "all file contents (no final newline, CRLF, empty lines, NUL bytes), all permission sets and requested modes, as an unprivileged user",
  "The tests use one file and run as root, where permissions do not bite.",
  [I + "file/file_utils.hpp", S + "file/file_utils.cpp", S + "utils.cpp"], [("getline loop; access(2)", S + "file/file_utils.cpp")])

p("C28", "Container helpers compare, convert and print collections by value",
  "Membership and equality of sets of shared pointers are decided by the pointed values, with null only equal to null; conversion to shared pointers and the extraction of keys keep every element and invent none. "
  "Printing a collection shows its elements in order with separators only between them, and equality is symmetric.",
  ["inputs"], "all small sets with null pointers, aliased pointers and equal values, all maps and vectors",
  "Tests use one or two sets of fixed pointers.",
  [I + "utils.hpp", I + "impl/utils.ipp"], [("value comparison through the pointers", I + "impl/utils.ipp")])

p("C29", "Formatted messages and exceptions carry exactly their text",
  "A formatter yields the concatenation of everything streamed into it in order, and an exception of any type of the library built from text or a formatter reports exactly that text (up to its first null character) and is catchable as the library's base error and as a standard exception.",
  ["inputs"], "all sequences of streamed values and all exception types, including text with null or percent characters",
  "Existing tests use fixed short texts.",
  [I + "Formatter.hpp", S + "Formatter.cpp", I + "exception/Exception.hpp", S + "exception/Exception.cpp"], [("string stream", S + "Formatter.cpp")])

p("C30", "Timestamps convert to text and back without loss",
  "Formatting a time point and parsing it with the same format and zone gives the same whole second back, for formats that determine the date, in UTC and in local time of any time zone, and the text is that of the calendar. "
  "Text in which a field or separator of the format is missing or wrong or out of range raises the precondition error, dates that no timestamp can hold raise the value-not-allowed error; milliseconds conversions round-trip and the 'forever' values behave as later than any other. Conversions in several threads at once do not disturb each other.",
  ["inputs", "configurations", "schedules"], "all seconds from 1900 to 2261, all time zones (outside ambiguous local hours), all format strings of supported fields and malformed texts",
  "Tests format one date.",
  [I + "time/time_utils.hpp", S + "time/time_utils.cpp"], [("strftime/get_time with timegm/mktime", S + "time/time_utils.cpp")])

p("C31", "Timers measure the time that passed while they were running",
  "A timer's reading equals the clock time since it was created or last reset; a pausable timer's reading equals the total clock time between its plays and pauses, is frozen while paused, and zero after reset. "
  "Readings never decrease without a reset; redundant plays and pauses change nothing.",
  ["histories"], "all histories of play, pause, reset and read with arbitrary clock advances, on a virtual clock that never steps back",
  "Tests sleep and check with tolerances, on two or three scripts.",
  [I + "time/Timer.hpp", I + "time/PausableTimer.hpp", S + "time/Timer.cpp", S + "time/PausableTimer.cpp"], [("accumulated elapsed time plus start stamp", S + "time/PausableTimer.cpp")])

p("C32", "Arithmetic helpers return the exact integer result whenever it is representable",
  "Exponentiation, progression sums, modulo and comparison helpers return the mathematically exact result whenever the arguments are in their documented domain and the result fits the return type, without overflow in intermediate steps.",
  ["inputs"], "all integer arguments, with boundary values, against arbitrary-precision arithmetic",
  "Tests check a few small values.",
  [I + "math/math_extension.hpp", S + "math/math_extension.cpp"], [("square-and-multiply; closed formulas", S + "math/math_extension.cpp")])

p("C33", "Random managers are reproducible functions of seed and index",
  "The number a random manager gives for a seed depends only on that seed, always the same and independent of the manager, of the other calls and of the thread; the sequence it gives is that of the standard generator for its seed, seeding it again restarts the sequence, and requests for pure or seeded numbers do not disturb it. "
  "The thread-safe manager keeps this under concurrent use, each position of the sequence being handed out exactly once.",
  ["histories", "schedules"], "all seeds, sequences of indexed and sequential requests and resets, and interleavings of several threads",
  "Tests compare a few values from one seed.",
  [I + "math/random/RandomManager.hpp", S + "math/random/RandomManager.cpp", I + "math/random/TSafeRandomManager.hpp", S + "math/random/TSafeRandomManager.cpp"],
  [("generated sequence stored and indexed", S + "math/random/RandomManager.cpp")])

p("C34", "A fuzzy value keeps its level and compares by it",
  "A fuzzy value remembers a value and how sure it is of it: a set value makes it valid and set, a value given at a level holds that level, unset makes it not set, and it is valid and set exactly when its level says so. "
  "Reading, comparing, copying, moving, assigning and printing agree with the value and level of the model on every history: two are equal when both are not set, or when both have the same level and value.",
  ["histories"], "all histories of construct, set at each level, unset, copy, move, compare and read",
  "Tests walk fixed scripts.",
  [I + "types/Fuzzy.hpp", I + "types/impl/Fuzzy.ipp"], [("value with fuzzy level", I + "types/impl/Fuzzy.ipp")])

p("C35", "Singletons are created once and shared by every thread",
  "Every access to a singleton of a given type and index, from any thread and in any order, yields the same instance, constructed exactly once, with different indexes giving different instances. "
  "A safe initializable singleton is built with exactly the arguments of the first initialization, tells later ones that they had no effect, also when initializations race, and gives no instance before it unless it is asked to create it; an initializable singleton holds what it was last initialized with.",
  ["schedules", "histories"], "all interleavings of 2-4 threads making first accesses and initializations",
  "No test races the first access.",
  [I + "types/Singleton.hpp", I + "types/InitializableSingleton.hpp", I + "types/SafeInitializableSingleton.hpp"],
  [("function static; unique instance flag", I + "types/impl/SafeInitializableSingleton.ipp")])

p("C36", "An atomicable value serializes the sections that lock it",
  "Sections that lock an atomicable value exclude each other: two exclusive sections never overlap, shared sections overlap only with shared ones, and the value they leave is that of some serial order.",
  ["schedules"], "all interleavings of 2-4 threads locking exclusively, shared or trying to lock",
  "Existing tests rely on sleeps.",
  [I + "types/Atomicable.hpp"], [("value inheriting a mutex", I + "types/Atomicable.hpp")])

p("C37", "Trees, builders and casts keep exactly what was put in them",
  "A tree reports the nodes, leaves and depth of the structure that was built, with each node's information; a map-backed builder builds for every text the value registered for it and rejects the others as documented, and its inverse map names every value; casts through the library's helpers give the object iff the dynamic type allows.",
  ["histories", "inputs"], "all trees up to a bounded size, all value maps and type hierarchies of the harness",
  "Existing tests use one fixed tree.",
  [I + "types/Tree.hpp", I + "types/impl/Tree.ipp", I + "types/Builder.hpp", I + "types/impl/Builder.ipp", I + "types/impl/cast.ipp"],
  [("children list; key-value map", I + "types/impl/Tree.ipp")])

p("C38", "A pool loans distinct elements and takes each back once",
  "Elements on loan from an unbounded pool are always distinct and reset since their last use; returning one makes it loanable again, the pool grows by its batch exactly when it is exhausted, and every element it created is destroyed exactly once. "
  "Returning more elements than were lent and a batch size of zero raise the documented errors.",
  ["histories"], "all histories of loan, return and destroy for all initial and batch sizes",
  "There is no test of the pool.",
  [I + "pool/IPool.hpp", I + "pool/UnboundedPool.hpp", I + "pool/impl/UnboundedPool.ipp", I + "pool/impl/IPool.ipp"],
  [("free list and batch allocation", I + "pool/impl/UnboundedPool.ipp")])

p("C39", "Generated enumerations convert to names and back for every enumeration",
  "For every enumeration generated by the library's macros or by the code generator, the values are the listed ones in order, each value's text is its listed name, building from that name gives the value back, and any other text is rejected. "
  "The set of all values has exactly the listed ones; the macro and the generator agree on every enumeration both accept.",
  ["programs", "inputs"], "all generated enumeration declarations (1-40 values, any identifiers, with and without namespace nesting) compiled and run, and all texts",
  "Tests fix one or two enumerations.",
  [I + "macros/custom_enumeration.hpp", I + "macros/recursive_macros.hpp", I + "enum/EnumBuilder.hpp", "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py"],
  [("recursive preprocessor macros; text templates", I + "macros/recursive_macros.hpp")])

p("C40", "Return codes compare, combine and print consistently",
  "A return code built from any library value compares equal exactly to codes with that value, negates to true exactly when it is not OK, and its inequality and ordering operators agree with its number; each code prints a name that is distinct. "
  "A middleware code becomes the library code of the same meaning, or the unknown one.",
  ["inputs"], "all pairs of return codes, natively built and from the middleware's numbers",
  "Tests check two codes.",
  [I + "ReturnCode.hpp", S + "ReturnCode.cpp"], [("mapping to and from the middleware codes", S + "ReturnCode.cpp")])

p("C41", "Robot-name mangling is inverted by demangling and rejects everything else",
  "Mangling a topic, service or type name for the robotics middleware and demangling the result gives the name back, for every kind of topic and service, nested namespaces included. "
  "A name that is not mangled is returned unchanged or reported as not belonging, as documented, and no input causes undefined behaviour.",
  ["inputs"], "all valid names built from segments, and arbitrary strings near the prefix and suffix grammar",
  "The tests use a few names of one segment.",
  [I + "ros2_mangling.hpp", S + "ros2_mangling.cpp"], [("prefix and suffix tables", S + "ros2_mangling.cpp")])

p("C42", "Quality-of-service policy masks print as the list of policies they hold",
  "Printing a mask of incompatible quality-of-service policies lists the name of exactly the policies set in it, in order, separated by commas, and the name of the invalid policy for an empty mask; every policy has its own name.",
  ["inputs"], "all single policies, all pairs and random masks",
  "The test prints a few masks.",
  [I + "qos/qos_utils.hpp", S + "qos/qos_utils.cpp"], [("switch over policy identifiers", S + "qos/qos_utils.cpp")])

p("C43", "Log consumers print exactly the entries their configuration admits",
  "A log consumer prints an entry exactly when its kind is within the configured verbosity and its category and content match the configured filters of that kind, to the error stream or output stream its kind calls for. "
  "A configuration takes a new verbosity or filter exactly when it is of a higher level of confidence than the one it has (of equal ones either may stay).",
  ["inputs", "configurations"], "all configurations of verbosity and filters and all sequences of entries",
  "Those tests need the real logging library and check fixed filters.",
  [I + "logging/BaseLogConfiguration.hpp", S + "logging/BaseLogConfiguration.cpp", S + "logging/BaseLogConsumer.cpp", S + "logging/StdLogConsumer.cpp"],
  [("regex filters per kind", S + "logging/BaseLogConsumer.cpp")])

# ---------------------------------------------------------------- python and cmake
p("C44", "Python wait handlers return true reasons and never hang",
  "A Python wait on a boolean or integer handler returns 'condition met' only if the condition held during the wait, 'disabled' when the handler is disabled, and 'timeout' only when the time given ran out with the condition false; a condition that becomes and stays true always releases it. "
  "Disabling releases all waiters and blocking disable returns once they have left.",
  ["schedules", "histories"], "all interleavings, under a controlled scheduler, of waiters, setters, enable, disable and blocking disable",
  "The tests cover single-threaded values only.",
  ["py_utils/py_utils/wait/WaitHandler.py", "py_utils/py_utils/wait/BooleanWaitHandler.py", "py_utils/py_utils/wait/IntWaitHandler.py"],
  [("condition variable with predicate", "py_utils/py_utils/wait/WaitHandler.py")])

p("C45", "Python timer and logging helpers report truthfully",
  "The Python timer's reading is the time elapsed since its creation or last reset in the documented unit, for any sequence of clock advances and resets. "
  "The shared logger emits a message, with its level and text, exactly when the level last set admits it; the debugging decorator passes arguments, result and exceptions of the function through unchanged.",
  ["histories", "inputs"], "all histories of clock advances, resets and readings on a virtual clock, all histories of levels and messages, all calls",
  "There are no tests of these over arbitrary histories.",
  ["py_utils/py_utils/time/Timer.py", "py_utils/py_utils/logging/log_utils.py", "py_utils/py_utils/debugging/debug_utils.py"],
  [("clock difference; logging level registration", "py_utils/py_utils/time/Timer.py")])

p("C46", "The build tooling reads the version of every well-formed version file",
  "For every version file holding a major, minor and patch number, the build tooling exposes exactly those three numbers and the full version composed of them, wherever the file's comments, spacing and order put them.",
  ["inputs", "configurations"], "all version files over the documented key-value syntax",
  "The test-suite has no test of the build scripts.",
  ["cmake_utils/cmake/project/read_version.cmake"], [("regular expression over the version file", "cmake_utils/cmake/project/read_version.cmake")])

p("C47", "A module's configuration is what its settings and options say",
  "After configuring a project, every setting, option, version number and installation path has the value its settings file, or else the command line or the environment variable documented for it, gives it, and the documented default otherwise; options that imply others turn them on. "
  "What a former configuration of the same build folder left does not change the outcome, except what the user gave on its command line.",
  ["configurations", "histories"], "all settings files over the documented variables, with all combinations of options, in sequences of configurations of one build folder",
  "No test covers the build scripts; the repository's own modules use one combination.",
  ["cmake_utils/cmake/project/configure_project.cmake", "cmake_utils/cmake/project/load_project_settings.cmake", "cmake_utils/cmake/project/cmake_options.cmake", "cmake_utils/cmake/project/installation_paths.cmake", "cmake_utils/cmake/project/read_version.cmake"],
  [("cache variables with defaults", "cmake_utils/cmake/project/cmake_options.cmake"), ("defaults of the settings", "cmake_utils/cmake/project/load_project_settings.cmake")])

p("C48", "Modules build, install, are found and register tests as their settings say",
  "A library or tool described by the documented settings compiles from exactly the sources it is given, installs its binary, its public headers (and no private ones), its license and its package files in the configured folders, and another project finds it by name, gets its version, headers and libraries, and is refused when it asks for a newer version than the one installed; its parts can be installed one by one, as the components headers, libraries, cmake and licenses. "
  "Each test target registers one test per case, with the command that runs exactly that case, and its labels and environment. "
  "Thirdparties, further folders of headers and libraries reach those, and only those, who are to see them; a documentation module is made and installed when its options ask for it, and only then.",
  ["configurations", "inputs"], "all module layouts, names, header and install folders, versions, dependency chains and test sources over the documented settings",
  "No test covers the build scripts; the repository's own modules use one layout.",
  ["cmake_utils/cmake/compilation/compile_library.cmake", "cmake_utils/cmake/compilation/compile_tool.cmake", "cmake_utils/cmake/compilation/compile_test.cmake", "cmake_utils/cmake/compilation/compile_documentation.cmake", "cmake_utils/cmake/cpp_common/find_external.cmake", "cmake_utils/cmake/packaging/eProsima_packaging.cmake", "cmake_utils/cmake/test/test_target.cmake", "cmake_utils/templates/cmake/packaging/library-Config.cmake.in"],
  [("targets and install rules", "cmake_utils/cmake/packaging/eProsima_packaging.cmake"), ("one ctest entry per case", "cmake_utils/cmake/test/test_target.cmake")])

p("C49", "Command lines mean what the options say; the usage shows every help text",
  "Parsing an argument vector yields exactly its options in order, each with the description that matches it (short groups, long names, abbreviations, single minus, unknown ones), the argument its check accepted, and the non-options, in POSIX and GNU order, over several parses into the same arrays; sizes computed beforehand suffice, and nothing beyond the given count or room is touched. "
  "The usage text holds every cell of every table once, aligned and wrapped to the width as documented, whatever kind of output it is written to.",
  ["inputs", "histories"], "all descriptions, argument vectors, parse settings and sequences of parses; all help texts, widths and percentages",
  "No test uses the option parser.",
  ["thirdparty/optionparser/optionparser.h"],
  [("the one parsing loop", "thirdparty/optionparser/optionparser.h"), ("linked lists with tagged ends", "thirdparty/optionparser/optionparser.h"), ("layout of the usage", "thirdparty/optionparser/optionparser.h")])

p("C50", "A log checker tells whether the number of entries lies within its limits",
  "check_valid() is true exactly when the number of log entries of the threshold's kind or a graver one emitted since the checker was created, including those still queued, lies between the expected number and the maximum (which is never below the expected number).",
  ["inputs", "schedules"], "all thresholds, limits, verbosities and interleavings of emitting threads and checkers",
  "The one test creates a checker that sees no entry.",
  ["cpp_utils/include/cpp_utils/testing/LogChecker.hpp", "cpp_utils/src/cpp/testing/LogChecker.cpp"],
  [("count of the severe handler against the limits", "cpp_utils/src/cpp/testing/LogChecker.cpp")])

p("C51", "The terminal shows the line being edited, and the cursor where typing goes",
  "While a line is edited on a terminal of any width, after every key the screen holds exactly the rows that were there before, the prompt followed by the line as it is now, and nothing below, with the cursor on the character before which the next one goes. "
  "When the line ends, its text stays and what is written next begins on a row below all of it.",
  ["inputs", "histories"], "all terminal widths and sequences of typing, deletion, cursor, history and line-ending keys over printable characters",
  "The tests discard what is written on the screen and never run on a terminal.",
  ["cpp_utils/src/cpp/event/StdinEventHandler.cpp"],
  [("rows the line takes and the row of the cursor", "cpp_utils/src/cpp/event/StdinEventHandler.cpp"), ("history keys replace the line", "cpp_utils/src/cpp/event/StdinEventHandler.cpp")])

p("C52", "Debug log statements emit exactly what the verbosity and the build admit",
  "A debug or developer-error statement emits exactly one entry with its category and its message when the build logs information and the verbosity is at least info; otherwise it emits nothing and its message is not evaluated. "
  "A user statement prints its message as a line of standard output, whatever the verbosity.",
  ["inputs", "configurations", "histories"], "all sequences of log statements, verbosities and messages, in builds that log information and builds that do not",
  "The tests need the real logging library and use none of these statements.",
  ["cpp_utils/include/cpp_utils/Log.hpp"],
  [("verbosity and build decide before the message is built", "cpp_utils/include/cpp_utils/Log.hpp")])

p("C53", "Every public header can be used alone, in any order, in any number of units",
  "A program whose units include any of the public headers, in any order and however often, and use what they declare as documented, compiles, links and gives in every unit the same results as in any other; what is one per process (singletons, signal managers, enumeration builders) is one for all of them.",
  ["configurations", "inputs"], "all programs of several units over sets and orders of the public headers, with both compilers, several language standards and builds with and without logs of information",
  "Each test is one unit that includes the one header it tests, after the headers of the test framework; several headers are included by no test.",
  ["cpp_utils/include/cpp_utils/collection/database/IDynamicDatabase.hpp", "cpp_utils/include/cpp_utils/collection/database/IDynamicModificableDatabase.hpp", "cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp", "cpp_utils/include/cpp_utils/enum/EnumBuilder.hpp", "cpp_utils/include/cpp_utils/utils.hpp"],
  [("include guards and the headers included by each header", "cpp_utils/include/cpp_utils"), ("inline functions and static members of templates", "cpp_utils/include/cpp_utils")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    assert len({d["id"] for d in P}) == len(P)
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
