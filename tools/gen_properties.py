#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
C='cpp_utils/'; I=C+'include/cpp_utils/'; S=C+'src/cpp/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Fast integer helpers compute exactly what plain arithmetic computes',
 'For every pair of unsigned 32-bit operands (divisor not zero) the optimised remainder and division equal the language\'s remainder and division, and the parity and power-of-two predicates are exact. The fast power equals the base multiplied by itself the given number of times modulo 2^32, and the arithmetic-progression sum equals the exact sum of the progression reduced modulo 2^32.',
 ['inputs'],'all 2^64 operand pairs (progression sum: all triples; power: all bases, exponents within the stated bound)',
 'Tests compare a few hundred small operands; wrap-around, power-of-two divisors near 2^31 and intermediate overflow are never reached.',
 [S+'math/math_extension.cpp',I+'math/math_extension.hpp'],
 [('fast paths for small / power of two divisors',S+'math/math_extension.cpp fast_module, fast_division'),('square-and-multiply',S+'math/math_extension.cpp fast_exponential'),('closed formula',S+'math/math_extension.cpp arithmetic_progression_sum')])

p('C02','Base64 encoding is standard and decoding inverts it',
 'Encoding any byte string gives the standard padded base64 text (length a multiple of four, standard alphabet, correct padding), and decoding that text gives back exactly the original bytes. Decoding any other text stops at the first character outside the alphabet and returns exactly the whole bytes carried by the characters before it, without ever reading outside the text.',
 ['inputs'],'all byte strings / texts up to the stated length',
 'Tests encode a handful of fixed strings; signed-shift, padding and table-lookup errors only show for particular byte values and lengths.',
 [S+'utils.cpp',I+'utils.hpp'],[('bit accumulator',S+'utils.cpp base64_encode, base64_decode'),('alphabet',I+'utils.hpp base64_alphabet')])

p('C03','Splitting a string loses nothing and leaves no delimiter behind',
 'Splitting a string by a non-empty delimiter yields the maximal pieces between successive leftmost occurrences: joining the pieces with the delimiter restores the source, no piece contains the delimiter, and there is always at least one piece. Splitting a list, or by a set of delimiters, is the same operation applied to each element and each delimiter in order, so no resulting piece contains any delimiter. The call terminates for every input, including an empty delimiter.',
 ['inputs'],'all sources and delimiters up to the stated lengths',
 'Tests use fixed sentences with one-character delimiters; overlapping, repeated, trailing and multi-character delimiters are sampled at most once.',
 [S+'utils.cpp'],[('cursor arithmetic',S+'utils.cpp split_string (three overloads)')])

p('C04','Substring replacement and stripping follow left-to-right semantics',
 'Replacing the first occurrence changes only the leftmost match and reports whether there was one; replacing all occurrences substitutes every non-overlapping match found scanning left to right, exactly once, and returns how many there were. Stripping does this for each undesired string in order and returns the total. All of them terminate and leave the rest of the text untouched, also when the replacement contains the text being replaced.',
 ['inputs'],'all texts, targets and replacements up to the stated lengths',
 'Tests strip newlines from fixed strings; a replacement that contains its target, or overlapping matches, is never tried.',
 [S+'utils.cpp'],[('search and replace loop',S+'utils.cpp replace_first, replace_all, strip_str')])

p('C05','Byte quantities are parsed exactly or refused, and formatted faithfully',
 'A quantity is accepted exactly when it is a decimal number (digits, optionally a point and more digits) followed, after optional blanks, by a known unit in any letter case and the product of both fits in 64 bits; anything else is refused with an invalid-argument error and never yields a wrong value. An accepted whole number gives exactly number times unit; one with decimals gives the product, truncated to bytes, up to the precision of a double. Formatting a byte count picks the largest decimal unit not above it and prints the quotient with two decimals, or without decimals when its decimal part is below one hundredth; zero is 0B.',
 ['inputs'],'all texts up to the stated length over the stated alphabet; all digit values with every unit; all 64-bit counts within the stated ranges',
 'Tests parse a few literals; the rounding boundary at 2^64 and the unit table entries are not covered for all values.',
 [S+'utils.cpp'],[('format check and unit table',S+'utils.cpp to_bytes'),('unit choice',S+'utils.cpp from_bytes')])

p('C06','Zero-padded number formatting keeps the value and enforces the width',
 'For every non-negative number and width the result is the decimal digits of the number padded on the left with zeros up to the width, never truncated. When wider numbers are forbidden, a number with more digits than the width is refused with an error and every other number is accepted, for every width.',
 ['inputs'],'all non-negative 32-bit numbers and all widths up to the stated bound (throw decision: all widths)',
 'Tests use a few numbers with small widths; widths whose power of ten overflows are not reached.',
 [S+'utils.cpp',S+'math/math_extension.cpp'],[('digit count check and padding',S+'utils.cpp number_trailing_zeros_format')])

p('C07','ROS 2 topic and service-topic names survive mangling and demangling',
 'For every name starting with a slash, mangling it as a topic, a service request or a service reply and then demangling with the matching operation restores the name, and the generic service demangling recognises both request and reply forms. Names without the required prefix or suffix are returned unchanged by the "if" operations and give an empty string in the strict ones; a prefix is only recognised when followed by a slash at the very start.',
 ['inputs'],'all names up to the stated length',
 'Tests use a few realistic names; nested namespaces, names that contain the prefix or suffix text inside, and empty names are not covered.',
 [S+'ros2_mangling.cpp',I+'ros2_mangling.hpp'],[('prefix handling',S+'ros2_mangling.cpp remove_prefix, get_ros_prefix_if_exists, remove_ros_prefix_if_exists, mangle_if_ros_topic'),('service suffix handling',S+'ros2_mangling.cpp demangle_ros_service_prefix_from_topic, mangle_ros_service_in_topic')])

p('C08','ROS 2 type names survive mangling; non-ROS types are left alone',
 'Mangling a well-formed ROS 2 message type (package, the msg marker, a type name) and demangling it restores the type; a type that is not a ROS type is returned unchanged by either operation. Demangling a service type gives the service name for both the request and response forms and an empty string for every text that lacks the namespace marker or does not end in one of the two suffixes after it; mangling a service type yields the request or response form selected by its prefix, or an empty string. No input makes these operations fail or read outside the text.',
 ['inputs'],'all type strings up to the stated length, plus structured strings with arbitrary package and type names',
 'Tests use a few literals; the empty string, misplaced suffixes and marker overlap are not covered.',
 [S+'ros2_mangling.cpp',I+'ros2_mangling.hpp'],[('type mangling',S+'ros2_mangling.cpp mangle_if_ros_type, demangle_if_ros_type'),('service types',S+'ros2_mangling.cpp demangle_service_type_only, mangle_service_type_only')])

p('C09','Case conversion and file-access flags touch exactly what they should',
 'Converting to lower or upper case maps every ASCII letter to its counterpart and leaves every other byte, and the length, unchanged. Access modes combine and intersect as sets of permissions, and an accessibility query asks the system for exactly the requested permissions on exactly the given path and is true exactly when the system grants them.',
 ['inputs','fault_sequences'],'all byte strings up to the stated length; all mode pairs; every answer of the system call',
 'Tests use ASCII literals and real files with fixed permissions; bytes above 127 and refused permissions are not covered.',
 [S+'utils.cpp',I+'utils.hpp'],[('per-byte transform',S+'utils.cpp to_lowercase, to_uppercase'),('flag passing',S+'utils.cpp operator|, operator&, is_file_accessible')])

p('C10','Container helpers compare, convert and print by value',
 'A set of shared pointers contains an element exactly when it holds the same pointer or a non-null pointer to an equal value, and two such sets are equal exactly when they have the same size and each one\'s elements are contained in the other. Converting a set of values gives one distinct shared copy of each; the keys helper returns exactly the keys of the map. Printing a container gives its elements in order between braces with the separator only between them.',
 ['inputs'],'all sets of up to the stated number of pointers with arbitrary (possibly equal, possibly null) values',
 'Tests use fixed small sets; duplicates by value, null elements and asymmetry are not covered.',
 [I+'impl/utils.ipp'],[('value search',I+'impl/utils.ipp set_of_ptr_contains, are_set_of_ptr_equal'),('conversion and printing',I+'impl/utils.ipp convert_set_to_shared, get_keys, container_to_stream, copy_to_void_ptr')])

p('C11','Dates, timestamps and their text form agree',
 'A timestamp built from a valid calendar date and time is exactly that many seconds from the epoch in UTC (a time-of-day timestamp carries the current UTC date), and printing a whole-second timestamp with the default format and parsing the text back gives the same instant, for every second a timestamp can represent. Dates a timestamp cannot represent are refused with an error, and so is text that misses a part of the format, has a field outside its range or differs in a separator; neither is ever turned into a wrong instant (text after the end of the format is ignored). Local-time conversion goes through the local calendar functions, with daylight saving where it is in force, and UTC conversion through the UTC ones.',
 ['inputs'],'all valid calendar dates and times of day within the stated range of years; arbitrary current time',
 'Tests use a few dates; leap years, month ends and time zones are sampled, not covered.',
 [S+'time/time_utils.cpp'],[('calendar conversion',S+'time/time_utils.cpp date_to_timestamp, time_to_timestamp'),('text conversion',S+'time/time_utils.cpp timestamp_to_string, string_to_timestamp')])

p('C12','Timers report exactly the time that passed while they were running',
 'A timer reports the time since its creation or last reset. A pausable timer reports the total of the periods in which it was playing since its creation or last reset, for every sequence of play, pause and reset and every advance of the clock; repeated play or pause changes nothing, and reset keeps its playing state. Both report through the same interface when handled as plain timers, and whole milliseconds are the truncated elapsed time.',
 ['histories','inputs'],'all operation sequences up to the stated length with arbitrary non-decreasing clock readings',
 'Tests sleep for fixed times with tolerances in a few fixed sequences, so small accounting errors and unusual sequences pass.',
 [S+'time/Timer.cpp',S+'time/PausableTimer.cpp'],[('start time and stored time',S+'time/PausableTimer.cpp play, pause, reset, elapsed')])

W=I+'wait/impl/WaitHandler.ipp'
p('C13','A waiting thread wakes for the true reason and never misses its condition',
 'A wait returns "disabled" only if the object was disabled, "condition met" only if the value satisfied the condition at that moment, and "timeout" only after its deadline with neither of those holding; disabled takes precedence over the condition. Once the value satisfies the condition and nobody changes it again, or the object is disabled, every waiting thread returns, whatever the interleaving with setters. A wait without time limit never reports a timeout, and concurrent calls are free of data races.',
 ['schedules','inputs'],'all interleavings of the stated threads, with arbitrary values, thresholds and timeouts, including spurious wake-ups',
 'Tests run one waiter and one setter with sleeps in between, so only one interleaving is ever seen.',
 [W,S+'wait/BooleanWaitHandler.cpp',S+'wait/IntWaitHandler.cpp'],[('predicate wait under the mutex',W+' blocking_wait_'),('value update and notification',W+' set_value; '+S+'wait/IntWaitHandler.cpp operators')],[('value_','value waited on'),('enabled_','whether waiting is allowed'),('threads_waiting_','threads inside a wait')])

p('C14','Disabling releases every waiting thread; blocking disable waits for them',
 'After an object is disabled every thread waiting on it returns with reason "disabled" and later waits return at once with that reason until it is enabled again. A blocking disable (and destruction) returns only when no thread is still inside a wait, always returns, and leaves the object disabled; the stop-and-continue operation wakes every thread waiting at that time and leaves the object enabled. None of them deadlocks in any interleaving.',
 ['schedules'],'all interleavings of waiters, setters and the disabling thread up to the stated thread counts',
 'Tests disable after a sleep when the waiter is already parked; disabling while a thread is entering or leaving the wait is never exercised.',
 [W,S+'wait/CounterWaitHandler.cpp'],[('disable and notification',W+' disable, blocking_disable, stop_and_continue, ~WaitHandler'),('waiting thread counter',W+' blocking_wait_')])

K=S+'wait/CounterWaitHandler.cpp'
p('C15','The counting semaphore never lets more threads through than its value allows',
 'Each successful wait on a counting handler consumes exactly one unit, a wait succeeds only while the value is above the threshold, and the final value equals the initial value plus increments minus successful waits. Waiting for the value to fall to the threshold returns exactly when it has, or when the object is disabled, and neither kind of waiter is ever left asleep when its condition holds or the object is disabled, and concurrent calls are free of data races.',
 ['schedules','inputs'],'all interleavings of the stated producers and consumers with arbitrary initial value and threshold',
 'Tests use sleeps and one consumer; two consumers competing for one unit and disabling a threshold waiter are not covered.',
 [K],[('consume under lock',K+' wait_and_decrement'),('threshold notification',K+' wait_threshold_reached')])

p('C16','Producer/consumer queues hand over every element exactly once and in order',
 'Every element produced is delivered to at most one consumer, elements come out in the order in which they were produced, and a consumer that is not disabled and has elements available always gets one. The number of elements reported never counts an element already handed over, and a consumer released by disabling or timeout gets an error instead of an element, and concurrent calls are free of data races.',
 ['schedules','inputs'],'all interleavings of the stated producers, consumers and a disabler, arbitrary element values',
 'Tests use a single fixed schedule enforced by sleeps.',
 [I+'wait/impl/ConsumerWaitHandler.ipp',I+'wait/impl/DBQueueWaitHandler.ipp',I+'wait/ConsumerWaitHandler.hpp'],[('count then fetch',I+'wait/impl/ConsumerWaitHandler.ipp produce, consume'),('double queue behind the counter',I+'wait/impl/DBQueueWaitHandler.ipp add_value_, get_next_value_')])

p('C17','The double-buffered queue behaves as one FIFO queue',
 'For every sequence of pushes, swaps, pops and queries, elements leave the queue in push order, and an element becomes readable only after a swap. A swap makes exactly the elements pushed since the previous one readable, replacing whatever was left unread on the reading side, and never duplicates an element; the emptiness, size and clear operations describe exactly the elements not yet popped. A producer pushing while a consumer reads its side never corrupts or loses an element, and concurrent calls are free of data races.',
 ['histories','schedules'],'all operation sequences up to the stated length; all interleavings of one producer and one consumer',
 'No unit test addresses this queue directly; it is only driven through a larger class.',
 [I+'queue/DBQueue.hpp'],[('queue swap',I+'queue/DBQueue.hpp Swap, Pop, Push')])

p('C18','The slot thread pool runs every emitted task exactly once',
 "Each emission of a registered slot while the pool is enabled leads to exactly one execution of that slot's task, emissions before the pool is enabled are run once it is, emitting an unregistered slot is refused with an error, and so is registering an identifier a second time (the first task stays). Disabling (or destroying) the pool returns only after its threads have finished, no task starts afterwards, and enabling it again makes it run tasks again, and concurrent calls are free of data races.",
 ['schedules','histories'],'all interleavings of emitters, workers and enable/disable up to the stated counts',
 'Tests count executions with sleeps; races between emission, disable and destruction, and re-enabling, are not covered.',
 [S+'thread_pool/pool/SlotThreadPool.cpp',I+'wait/impl/ConsumerWaitHandler.ipp'],[('task queue and worker loop',S+'thread_pool/pool/SlotThreadPool.cpp thread_routine_, emit, enable, disable')])

M=I+'memory/impl/'
p('C19','Owned data outlives its guards and is destroyed exactly once',
 "While a guard on owned data is held the data stays alive, and the owner's release waits until the last guard is gone; after the owner is reset, reassigned or destroyed, lessees can no longer obtain the data (a null guard, or an error from direct access) and the data is deleted exactly once through its deleter. Copies and moves of lessees and guards refer to the same data and every guard given up, by destruction, move or assignment, stops blocking the owner. No interleaving of owner and lessees uses destroyed data, and concurrent calls are free of data races.",
 ['schedules','histories'],'all operation sequences up to the stated length; all interleavings of an owner and lessee threads',
 'Tests cover a few single-thread sequences and one sleep-driven multi-thread case.',
 [M+'OwnerPtr.ipp',M+'LesseePtr.ipp',M+'GuardedPtr.ipp',M+'InternalPtrData.ipp'],[('shared mutex between guard and release',M+'InternalPtrData.ipp'),('weak/shared ownership',M+'LesseePtr.ipp, OwnerPtr.ipp')])

p('C20','A heritable object behaves as the object it wraps',
 'A heritable wrapper gives the wrapped object, of the wrapped class or of a derived one, with its own behaviour: calls, comparison, ordering and streaming act on that object. Copies refer to the same object, moving hands it over and assigning replaces it, and the object is destroyed exactly once, as what it is, when the last wrapper referring to it is gone. Casting gives the contained object when it is of the asked type, otherwise an error, and the cast test tells exactly which.',
 ['histories','inputs'],'all operation sequences up to the stated length with arbitrary values',
 'Tests check fixed sequences and values.',
 [I+'memory/Heritable.hpp',M+'Heritable.ipp'],[('copy and move',M+'Heritable.ipp')])

D=I+'collection/database/impl/SafeDatabase.ipp'
p('C21','The database behaves as a map that refuses duplicates and missing keys',
 'For every sequence of operations the database contents equal those of a plain map in which add succeeds only for a new key, modify and erase only for an existing key, and add-or-modify always; the results (success flags, found values, sizes, iteration contents) agree with that map and a failed operation changes nothing. Looking up a missing key is reported and never creates it.',
 ['histories','inputs'],'all operation sequences up to the stated length over arbitrary keys and values',
 'Tests run fixed sequences with fixed keys.',
 [D,I+'collection/database/SafeDatabase.hpp'],[('guarded map',D)])

p('C22','Concurrent database use is safe: iterators hold off writers',
 'While an iterator exists no other thread can change the database, so iteration never sees a half-made change or a removed element; when the last iterator is gone writers proceed. Concurrent operations take effect one at a time (exactly one of several simultaneous adds of the same key succeeds), and no combination of readers, iterators (including copied ones) and writers deadlocks or releases a lock it does not hold, and concurrent calls are free of data races.',
 ['schedules'],'all interleavings of the stated reader and writer threads',
 'Tests use one iterator at a time in a single thread or with sleeps.',
 [D,I+'collection/database/SafeDatabase.hpp'],[('iterator lock',D+' SafeDatabaseIterator'),('shared and unique locks',D)])

U=I+'pool/impl/UnboundedPool.ipp'
p('C23','The pool never lends an element twice and never loses one',
 'For every sequence of loans and returns, an element is never lent while already lent, every request succeeds by growing the pool when needed, returned elements are reused, and the pool holds at least the initial size from the start. Returning more elements than were lent is refused with an error, a zero growth step is refused at construction, and each element is initialised, reset on return and destroyed as configured, exactly once each.',
 ['histories','configurations'],'all loan/return sequences up to the stated length, all initial and batch sizes within bounds',
 'Tests use fixed sizes and orders.',
 [U,I+'pool/impl/IPool.ipp'],[('free stack and reserve counter',U)])

F=I+'types/impl/Fuzzy.ipp'
p('C24','A fuzzy value keeps its level consistent with its content',
 'Setting a value gives that value exactly the given level, setting a level keeps the value, unsetting gives the unset level, and reading returns the last value set; a value is valid exactly from the default level up and set exactly from the fuzzy level up. Two fuzzy objects are equal exactly when neither is set, or both have the same level and equal values, and comparison with a plain value holds exactly when the object is valid with that value. Copying, moving and assigning keep value and level together, and each named level has its own text.',
 ['histories','inputs'],'all operation sequences up to the stated length, all levels and values',
 'Tests use a few named levels.',
 [F,I+'types/Fuzzy.hpp'],[('level bookkeeping',F)])

p('C25','Tree size, depth and branches describe the tree',
 'In a tree built by adding branches, every node keeps its own information and its branches in order, and the leaf test holds exactly for nodes without branches. The depth of a node is the number of levels below it on its longest path (a leaf has depth 0), and listing all nodes gives every node below exactly once. Adding a subtree by copy or by move keeps its contents.',
 ['histories','inputs'],'all trees up to the stated number of nodes',
 'No test measures depth on generated shapes.',
 [I+'types/Tree.hpp',I+'types/impl/Tree.ipp'],[('recursive structure',I+'types/impl/Tree.ipp')])

p('C26','Name/value builders find exactly the entries they were given',
 'For every table of keys and values, given in either direction, looking up a registered key gives the value it was registered under, and any other key is refused with an error or reported as not found. Keys are compared exactly as given. Replacing the table, in either direction, leaves exactly the new entries.',
 ['inputs','configurations'],'all lookups of names up to the stated length against the stated tables',
 'Tests look up a fixed list of names.',
 [I+'types/impl/Builder.ipp',I+'enum/impl/EnumBuilder.ipp'],[('inverted index',I+'types/impl/Builder.ipp'),('string to enumeration',I+'enum/impl/EnumBuilder.ipp')])

p('C27','Generated enumerations convert to and from their names exactly',
 'In an enumeration declared with the enumeration macro every value converts to its declared name and prints as it, that name converts back to the same value, and any other text is refused with an error or reported as unknown. The lists of names and values and their number match the declaration order. The recursive macros count their arguments and apply the given macro to every one of them in order.',
 ['inputs'],'all values; all texts up to the stated length; declarations of the stated sizes',
 'Tests check a few names of a few enumerations.',
 [I+'macros/custom_enumeration.hpp',I+'macros/recursive_macros.hpp',I+'macros/macros.hpp'],[('macro expansion',I+'macros/custom_enumeration.hpp ENUMERATION_BUILDER')])

p('C28','Singletons are created once, shared by all, and isolated by index',
 'All accesses to a singleton, from any thread and in any interleaving of first accesses, obtain the same fully constructed object, constructed exactly once; singletons of the same type with different indices are different objects. A safe initialisable singleton is built exactly once, with the arguments of its first initialisation or by default when it is accessed before; later initialisations report failure and change nothing, and access without creation gives nothing until it is built, all of it free of data races. A plain initialisable singleton gives nothing before it is initialised and then the object built with the given arguments.',
 ['schedules','histories'],'all interleavings of first accesses by the stated threads; all initialise/access sequences',
 'Tests access singletons from one thread.',
 [I+'types/impl/Singleton.ipp',I+'types/impl/InitializableSingleton.ipp',I+'types/impl/SafeInitializableSingleton.ipp'],[('lazy creation',I+'types/impl/Singleton.ipp')])

p('C29','Atomic wrappers make accesses mutually exclusive',
 "While a thread holds the exclusive lock of a wrapped value no other thread can hold any lock on it, while shared locks may coexist. Operations done under the wrapper's lock by several threads have the effect of running one after another. Every wrapped value has its own lock and behaves as a value of its type, and concurrent calls are free of data races.",
 ['schedules'],'all interleavings of the stated reader and writer threads',
 'No test runs conflicting accesses under controlled interleavings.',
 [I+'types/Atomicable.hpp'],[('mutex forwarding',I+'types/Atomicable.hpp')])

p('C30','Random managers are deterministic per seed and lose no draw',
 'Two managers built or re-seeded with the same seed give the same sequence, a draw for a seed depends only on that seed, and neither that draw nor a pure random draw disturbs the sequence. The thread-safe manager gives the same numbers as the plain one. Its concurrent callers together get the collection of values one caller would get, with none repeated or skipped, and each seeded draw stays exact, and concurrent calls are free of data races.',
 ['inputs','schedules'],'all seeds and ranges (generator treated as an arbitrary deterministic sequence); all interleavings of two callers',
 'Tests compare a few seeds statistically.',
 [S+'math/random/RandomManager.cpp',S+'math/random/TSafeRandomManager.cpp'],[('generator ownership',S+'math/random/RandomManager.cpp'),('lock around the generator',S+'math/random/TSafeRandomManager.cpp')])

E=I+'event/impl/EventHandler.ipp'
p('C31','Event handlers call the current callback once per event and count events',
 "Each event that occurs while a callback is set runs the callback set last exactly once, with the event's values and one at a time, and increases the event counter by exactly one; events with no callback set run and count nothing. Waiting for N events returns true only when at least N have been counted, never misses that moment, and is released when the callback is removed; once the callback has been removed or replaced (from outside a callback) the old one never runs again. Removing the callback never deadlocks, and a handler destroyed while threads wait on it is not touched by them afterwards, and concurrent calls are free of data races.",
 ['schedules','histories'],'all interleavings of event producers, waiters and callback changes up to the stated counts',
 'Tests raise events from one thread with sleeps.',
 [E],[('callback under mutex',E+' event_occurred_, set_callback, unset_callback'),('waiting',E+' wait_for_event')])

p('C32','Periodic events fire once per elapsed period and stop when told',
 'A periodic handler with a positive period calls its callback only after a full period has passed since it started or since the previous call ended, and goes on until it is stopped; a zero period is refused with an initialization error, and no other is. Removing the callback or destroying the handler (from outside the callback) stops the thread, always returns, and no callback runs afterwards; setting a callback again restarts it with a full period.',
 ['schedules'],'all interleavings of the timer thread and the controlling thread up to the stated number of periods',
 'Tests use real sleeps with tolerances.',
 [S+'event/PeriodicEventHandler.cpp'],[('timer thread',S+'event/PeriodicEventHandler.cpp period_thread_routine_, start_period_thread_nts_, stop_period_thread_nts_')])

p('C33','A compound event handler reports each event of each part once',
 'A handler made of several handlers runs its callback exactly once for every event of every registered part, and counts it once, while the callback is set, also when parts fire at the same time. It stops reacting when its callback is removed, and owns its parts: they are destroyed with it, after which no callback runs and nothing of it is touched, and concurrent calls are free of data races.',
 ['schedules','histories'],'all interleavings of events of the stated parts',
 'Tests fire parts one after another.',
 [I+'event/impl/MultipleEventHandler.ipp',I+'event/MultipleEventHandler.hpp'],[('forwarding callbacks',I+'event/impl/MultipleEventHandler.ipp')])

p('C34','Every received signal reaches every registered handler',
 'Each received signal runs, exactly once, the callback of every handler registered for that signal when it arrives and still registered when it is handled; no signal is lost, whatever the moment it arrives. Handlers of other signals do not run, a handler never runs after it has unregistered or been destroyed, removing an unknown identifier is an error, and unregistering and destruction always complete, and concurrent calls are free of data races.',
 ['schedules','histories'],'all interleavings of signal arrival, registration and unregistration up to the stated counts',
 'Tests raise signals one at a time with sleeps.',
 [I+'event/impl/SignalManager.ipp',I+'event/impl/SignalEventHandler.ipp'],[('signal thread and callback table',I+'event/impl/SignalManager.ipp')])

p('C35','Log event handlers see every log entry at or above their severity',
 'A log handler runs its callback once for every log entry consumed while its callback is set; a severe-log handler does so exactly for the entries whose severity reaches its threshold, also while it is being constructed or destroyed, and makes sure that entries of these severities are enabled. A log checker is valid exactly when the number of such entries logged until it is asked lies between the expected minimum and the larger of minimum and maximum. Destroying a handler while entries are consumed never touches a destroyed object, and no callback runs afterwards, and concurrent calls are free of data races.',
 ['inputs','histories','schedules'],'all sequences of entries with arbitrary severities up to the stated length, all thresholds and limits',
 'Tests emit a few logs in a fixed order.',
 [S+'event/LogEventHandler.cpp',S+'event/LogSevereEventHandler.cpp',S+'testing/LogChecker.cpp'],[('registration with the log library',S+'event/LogEventHandler.cpp'),('threshold',S+'event/LogSevereEventHandler.cpp'),('limits',S+'testing/LogChecker.cpp')])

p('C36','File watching reports each change of the watched file while active',
 'A file-watch handler watches exactly the given file while a callback is set, runs the callback once with the path for each modification reported by the watching library and for no other kind of change, and stops watching, with no later callback, when the callback is removed or the handler destroyed. If the watch cannot be started, an error is logged and the handler does not pretend to watch; setting a callback again after removing it tries again.',
 ['histories','fault_sequences'],'all sequences of callback changes, file events and start failures up to the stated length',
 'Tests need real file changes and sleeps; failure to start is never exercised.',
 [S+'event/FileWatcherHandler.cpp'],[('watcher lifetime',S+'event/FileWatcherHandler.cpp start_filewatcher_nts_, stop_filewatcher_nts_')])

p('C37','The interactive line editor delivers exactly the edited line',
 'For every sequence of keys (characters, cursor moves, deletions, history moves, line ends, Ctrl+C) the line delivered is the one obtained by applying the edits to the text at the cursor; Ctrl+C delivers an empty line and the end of the input delivers what was typed so far. Each line is delivered exactly once, in order, and only as many lines are read as were asked for. No key sequence and no terminal width moves the cursor or edits outside the line, and the terminal mode is restored when reading stops.',
 ['histories','inputs'],'all key sequences up to the stated length over the stated key alphabet',
 'Tests feed a few plain lines.',
 [S+'event/StdinEventHandler.cpp'],[('key handling',S+'event/StdinEventHandler.cpp')])

p('C38','Command history navigation returns stored commands and stays in range',
 'For every sequence of added commands and moves, a previous move returns the next older stored command (nothing once the oldest was reached), and a next move returns the next newer one (nothing past the newest, where the line being edited is). Empty commands are not stored, and adding a command returns the position past the newest. No sequence, including moves on an empty history, reads outside the stored commands.',
 ['histories'],'all operation sequences up to the stated length',
 'Tests use one fixed sequence.',
 ['cpp_utils/src/cpp/history/CommandHistoryHandler.cpp',I+'history/CommandHistoryHandler.hpp'],[('position index','cpp_utils/src/cpp/history/CommandHistoryHandler.cpp')])

p('C39','Command lines are split into words and matched to commands faithfully',
 'A command line is split at each space, except that a word starting with a double quote extends to the next word end that is a double quote (or to the end of the line) and loses those quotes; the words are returned in order and with their exact characters. The first word selects the command with that name, and an unknown word is reported as unknown and never selects a command. Destroying the reader never lets a line reach a destroyed object.',
 ['inputs'],'all lines up to the stated length over the stated alphabet',
 'Tests use a few fixed lines.',
 [I+'user_interface/impl/CommandReader.ipp',I+'user_interface/CommandReader.hpp'],[('quote joining and command lookup',I+'user_interface/impl/CommandReader.ipp')])

p('C40','Log configuration keeps the setting of highest precedence',
 "Applying log settings in any order leaves, for the verbosity and for each severity's filter independently, the last applied setting among those of the highest precedence level applied so far (the initial defaults count as the default level). A log consumer accepts an entry exactly when its severity is enabled by the verbosity and its category or its text matches the filter of that severity. Accepted errors and warnings are printed to the error stream and accepted information to the standard stream.",
 ['histories','inputs'],'all sequences of settings up to the stated length; all entries over the stated alphabets',
 'Tests apply settings in a few orders.',
 [S+'logging/BaseLogConfiguration.cpp',S+'logging/BaseLogConsumer.cpp',S+'logging/StdLogConsumer.cpp'],[('precedence',S+'logging/BaseLogConfiguration.cpp set'),('filtering',S+'logging/BaseLogConsumer.cpp accept_entry_')])

p('C41','Return codes map middleware codes faithfully and compare by value',
 'Every middleware return code maps to the code of the same meaning (all specific failures to the generic error, unrecognised ones to unknown) and only success counts as success. Equality, inequality, ordering and negation of return codes agree with their numeric values, and printing gives the name of the code.',
 ['inputs'],'all 32-bit middleware codes; all pairs of codes',
 'Tests check a handful of codes.',
 [S+'ReturnCode.cpp'],[('mapping switch',S+'ReturnCode.cpp')])

p('C42','Quality-of-service values have their own distinct text',
 'Every quality-of-service kind converts to its documented text, different kinds never share a text, and a value outside the known kinds is handled as documented without undefined behaviour.',
 ['inputs'],'all values of each kind, including out-of-range values',
 'Tests check the enumerators one by one, not arbitrary values.',
 [S+'qos/qos_utils.cpp'],[('text switch',S+'qos/qos_utils.cpp')])

p('C43','Reading a file into lines keeps every line and reports a file it cannot open',
 'Reading a file returns its lines in order without their line ends, keeps empty lines or drops them exactly as asked and removes carriage returns exactly when asked, and the whole text is those lines each followed by a line end. A file that cannot be opened is an error, never an empty result.',
 ['inputs','fault_sequences'],'all file contents up to the stated length over the stated alphabet; open failure',
 'Tests read two fixed files.',
 [S+'file/file_utils.cpp'],[('line loop',S+'file/file_utils.cpp')])

p('C44','Formatted messages and exceptions carry exactly the text given',
 'A formatter accumulates every piece streamed into it, in order, and returns the concatenation any number of times; an exception built from a formatter or text reports exactly that text, also after being copied, thrown and caught as its base, and each exception kind can be caught as the general library error.',
 ['inputs','histories'],'all sequences of pieces up to the stated count with arbitrary text and integers within bounds',
 'Tests check fixed messages.',
 [I+'Formatter.hpp',I+'impl/Formatter.ipp','cpp_utils/src/cpp/exception/Exception.cpp'],[('stream accumulation',I+'impl/Formatter.ipp')])

p('C45','Task identifiers are unique until exhausted',
 'Identifiers handed out for new tasks are pairwise different, also when requested concurrently from several threads, and concurrent calls are free of data races.',
 ['schedules','histories'],'all interleavings of the stated threads requesting identifiers',
 'Tests request a few identifiers from one thread.',
 ['cpp_utils/src/cpp/thread_pool/task/TaskId.cpp',I+'thread_pool/task/TaskId.hpp'],[('identifier counter','cpp_utils/src/cpp/thread_pool/task/TaskId.cpp')])

p('C46','Python wait handlers wake for the true reason and always release waiters',
 'A wait of the Python wait handlers returns "disabled" if the handler is disabled when the thread wakes, otherwise "condition met" if the condition holds for the value at that time, otherwise "timeout" and never before its limit; once the condition holds for good or the handler stays disabled every waiter returns. Every increase, decrease, open, close and set takes effect exactly once and wakes the waiters, and a blocking disable returns only once every thread that was waiting has left, and never hangs.',
 ['schedules','inputs'],'all interleavings of the stated threads with arbitrary integer values and thresholds',
 'Python tests use sleeps and fixed schedules.',
 ['py_utils/py_utils/wait/WaitHandler.py','py_utils/py_utils/wait/IntWaitHandler.py','py_utils/py_utils/wait/BooleanWaitHandler.py'],[('condition wait','py_utils/py_utils/wait/WaitHandler.py wait')])

p('C47','Python timer reports the time since its last reset',
 'The Python timer reports exactly the clock difference between now and its creation or last reset, for every sequence of resets and readings.',
 ['histories','inputs'],'all sequences up to the stated length with arbitrary clock readings',
 'Tests sleep for fixed times with tolerances.',
 ['py_utils/py_utils/time/Timer.py'],[('start time','py_utils/py_utils/time/Timer.py')])

p('C48','The enumeration generator writes code for exactly the given names',
 'For every list of value names (letters, digits and underscores), separated by semicolons or, when there is no semicolon, by commas, with blanks removed, the generated header declares exactly those values in order, their texts in the same order, the right count and the given namespaces opened in order and closed in reverse. It goes to the path asked for, or to the name of the enumeration with .hpp, and no template placeholder remains in it.',
 ['inputs'],'all value and namespace texts up to the stated length',
 'No unit test covers the generator.',
 ['dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py'],[('template filling','enumeration_builder.py generate_file_text, parse_values')])

p('C49','The Python logger writes each record once, in its format, from its level up',
 'For every sequence of level changes, format changes and messages, a message of a CustomLogger is written exactly when its level is at or above the level set last (debug activation sets the debug level), exactly once, in the format set last, and other loggers are unaffected. A function under the debug decorator is called once per call with the same arguments and its result or exception reaches the caller; the call and its end are written before and after it only when debug messages are wanted.',
 ['inputs','histories'],'every sequence of level and format changes and every level',
 'No unit test covers the logger or the decorators.',
 ['py_utils/py_utils/logging/log_utils.py','py_utils/py_utils/debugging/debug_utils.py'],[('set_format, set_log_level','log_utils.py CustomLogger'),('debug decorators','debug_utils.py')])

p('C50','Wildcard matching accepts exactly the texts the pattern describes',
 'A text matches a wildcard pattern exactly if the whole text is described by it: a star stands for any number of bytes (none included), a question mark for exactly one byte, a bracket for one byte of the set or the ranges it lists (or, begun with an exclamation mark or a caret, for one byte outside them), and every other byte, the backslash, the slash and the dot included, for itself alone; a bracket that is never closed stands for itself.',
 ['inputs'],'all patterns and texts of up to the stated lengths over every byte value',
 'No test calls it; patterns from configuration files are arbitrary.',
 [S+'utils.cpp',I+'utils.hpp'],[('pattern matching',S+'utils.cpp match_pattern')])


p('C51','The code of a generated enumeration converts to and from names exactly',
 'In every header the enumeration generator writes, each value converts to its name and prints as it, that name converts back to the same value, and any other text is refused with an exception. The array and the vector of names and the number of values match the list of values in order.',
 ['inputs'],'all values; all texts up to the stated length; headers for the stated lists of names',
 'No test runs the generator, and none compiles what it writes.',
 ['dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py'],[('header template','dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py TEMPLATE_TEXT')])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
