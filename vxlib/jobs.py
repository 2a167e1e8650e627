from .table import J, add, add_py

F = "C01.cpp"
add("C01", [
    J(F, "c01_module", validate=True), J(F, "c01_division"), J(F, "c01_predicates"),
    J(F, "c01_power", [24], [64]), J(F, "c01_power_exponent", [7], [12]), J(F, "c01_progression", [32], [128]),
], "module, division, predicates: every 32-bit operand; power: every base with exponents 0..23 (thorough 0..63), 7 bases with every exponent below 2^7 (2^12); "
   "progression: every 32-bit first element and interval, steps 1..32 (thorough 1..128) and 15 values up to 2^32-1")
F = "strings.cpp"
add("C02", [J(F, "c02_encode", [5], [9]), J(F, "c02_roundtrip", [4], [6]), J(F, "c02_decode", [5], [8]), J(F, "c02_long", [13], [24]), J(F, "c02_much", [76], [400])],
    "encoding: every data of up to 5 bytes (thorough 9); round trip up to 4 (6) bytes and of exactly 13 (24) bytes, and of 76 to 78 (400 to 402) bytes with any two neighbouring ones at five places; decoding: every text of up to 5 (8) bytes, all 256 byte values")
add("C03", [J(F, "c03_one", [6, 3], [8, 3], covers=["one", "pieces", "empty_delimiter"]), J(F, "c03_list", [3], [4]), J(F, "c03_set", [4, 1], [5, 2]), J(F, "c03_much", [1000], [3000])],
    "every source of up to 6 bytes (thorough 8) with every delimiter of 0..3 bytes; lists of up to 2 sources of up to 3 (4) bytes; sets of two delimiters, source up to 4 (5) bytes; texts of 1000 (3000) bytes with hundreds of pieces and any two bytes")
add("C04", [J(F, "c04_first", [6, 3], [8, 3], covers=["first", "match"]), J(F, "c04_all", [5, 2], [7, 3], covers=["all", "several"]), J(F, "c04_strip", [3], [4]), J(F, "c04_strip_default", [6], [8]), J(F, "c04_much", [300], [1000])],
    "texts of up to 6/5/3/6 bytes (thorough 8/7/4/8), targets of up to 3 bytes (empty included for replacing all), replacements of up to 2 bytes, all byte values; texts of 300 (1000) bytes with many matches and any two bytes")
add("C06", [J(F, "c06_format", [d, 0], covers=["format", "refused"], less=[[d, 1]]) for d in range(10, 0, -1)] + [J(F, "c06_wide")],
    "every non-negative int with every width 0..12; every number below 100 with widths 12..65 (8 values)")
add("C09", [J(F, "c09_case", [6], [8]), J(F, "c09_long", [100], [300]), J(F, "c09_access", [3], [6], covers=["granted", "denied"])],
    "every text of up to 6 (thorough 8) bytes, and of 100 to 102 (300 to 302) bytes with any two neighbouring ones at five places, all byte values; all 8 access modes and pairs, paths of up to 3 (6) bytes, either answer of the system")
add("C50", [J(F, "c50_match", [p, t, 0], covers=(["mismatch"] if p or t else []) + (["match"] if p or not t else []) + (["star"] if p else []) + (["quest"] if p and t else []) + (["bracket"] if p > 2 and t else [])) for p in range(5) for t in range(4)] +
    [J(F, "c50_match", [5, t, 1], covers=["mismatch", "bracket", "match"]) for t in (1, 2)] + [J(F, "c50_match", [5, t, 0], covers=["match"], thorough_only=True) for t in (1, 2, 3)] + [J(F, "c50_much", [100], [300], covers=["match", "mismatch"])],
    "every pattern of up to 4 (thorough 5) bytes with every text of up to 3; patterns of 5 bytes that begin with a bracket; eight shapes of patterns of about 100 (300) bytes with any two neighbouring bytes in the text",
    ["no NUL bytes; the C locale; no character classes, collating elements or equivalents inside a bracket"])
F = "wait.cpp"
add("C13", [J(F, "c13_alone", covers=["disabled", "met", "timeout"], conc=True), J(F, "c13_setter", [1, 0], [2, 0], covers=["setter", "met", "disabled"], conc=True),
            J(F, "c13_setter", [1, 1], [2, 1], covers=["setter", "met", "timeout"], conc=True), J(F, "c13_setter", [2, 0], covers=["setter", "met", "disabled"], conc=True), J(F, "c13_two", [0], conc=True), J(F, "c13_two", [1], conc=True), J(F, "c13_two", [2], conc=True), J(F, "c13_count", conc=True)] + [J(F, "c13_quiet", [o], conc=True) for o in (0, 1, 2)] + [
            J(F, "c13_disable", conc=True, covers=["disable", "met"]), J(F, "c13_gate", [0], conc=True), J(F, "c13_gate", [1], conc=True, covers=["gate", "timeout"]), J(F, "c13_gate_two", conc=True, covers=["gate_two", "opened", "closed"])],
    "every int value and expected value, the five comparisons, up to 3 threads and 2 changes, changes that notify nobody followed by ones that do (all schedules); six time limits from 1 ms to 2^32-1 ms")
add("C14", [J(F, "c14_release", [2, o], conc=True) for o in range(5)] + [J(F, "c14_counter", [o], conc=True) for o in range(5)] + [J(F, "c14_control", [a, b], conc=True) for a in range(4) for b in range(a + 1)],
    "up to 2 waiting threads with one controlling thread, 1 waiter with two concurrent control operations (every pair); all schedules")
add("C15", [J(F, "c15_units", [w, i, d], conc=True, covers=["units"]) for w, i, d in [(2, 2, 1), (2, 1, 1), (1, 2, 0), (2, 0, 2), (2, 0, 3), (1, 2, 2)]] +
    [J(F, "c15_units", [3, 2, 1], conc=True, covers=["units", "success"], weight=5)] +
    [J(F, "c15_timed", [n], conc=True, covers=["timed", "timeout"]) for n in (1, 2)] + [J(F, "c15_threshold", [d, i], conc=True) for d, i in [(1, 0), (2, 0), (1, 1), (0, 1)]] +
    [J(F, "c15_rise", conc=True)] + [J(F, "c15_threshold_two", [a], conc=True) for a in (0, 1)] + [J(F, "c15_release", [o, r], conc=True) for o in range(5) for r in (0, 1)],
    "every threshold; initial value from one below to two above the threshold, up to 3 waiting threads and 2 increments from 2 threads; all schedules")
add("C16", [J(F, "c16_sequence", [4], [6], conc=True, covers=["sequence", "timeout", "given"]), J(F, "c16_much", [300], [1000], conc=True)] + [J(F, "c16_threads", a, conc=True) for a in ([1, 2, 1], [1, 3, 1], [1, 2, 2], [2, 1, 1], [2, 1, 2], [2, 2, 1])] +
    [J(F, "c16_disable", [0], conc=True, covers=["disable", "disabled", "given"]), J(F, "c16_disable", [1], conc=True, covers=["disable", "disabled", "given"]), J(F, "c16_disable", [2], conc=True, covers=["disable", "timeout", "given"])],
    "sequences of 4 (thorough 6) operations with any elements on one thread and 300 (1000) elements with any one among them; up to 2 producers, 2 consumers and 4 elements; all schedules")
F = "queue.cpp"
add("C12", [J(F, "c12_timer", [5], [7]), J(F, "c12_pausable", [4], [6]), J(F, "c12_whole", [11], [18]), J(F, "c12_much", [1100], [3000])],
    "every sequence of up to 4 (thorough 6) plays, pauses, resets and readings with three series of clock advances; 1100 (3000) plays and pauses; truncation for every nanosecond of four stretches of 2^11 (2^18) ns",
    ["advances of the clock below 2^32 ms; the system clock does not go backwards"])
add("C17", [J(F, "c17_sequence", [4], [5], covers=["sequence", "popped"]), J(F, "c17_much", [1100], [5000])] + [J(F, "c17_threads", a, conc=True) for a in ([1, 1], [1, 2], [1, 3], [2, 1])] + [J(F, "c17_threads", [2, 2], conc=True, thorough_only=True)],
    "sequences of 4 (thorough 5) operations with any elements, rounds of 1100 (5000) elements with any one among them; one consumer with 1 producer of up to 3 elements or 2 producers of 1 (2), all schedules")
add("C18", [J(F, "c18_emit", [1, e, g], conc=True) for e in (0, 1, 2) for g in (0, 1)] + [J(F, "c18_emit", [2, 2, g], conc=True, preempt=3, preempt_thorough=6, weight=5) for g in (0, 1)] +
    [J(F, "c18_much", a, conc=True, preempt=0) for a in ([1, 100, 4], [2, 100, 4], [4, 20, 20])] +
    [J(F, "c18_disable", [1], conc=True, covers=["disable", "kept", "done"])] + [J(F, "c18_slots", [e, s], conc=True, covers=["slots"] + (["first", "second"] if s else ["first"])) for e in (0, 1) for s in (0, 1)],
    "pool of 1 thread with 2 emissions from 2 threads and with registrations from 2 threads, all schedules; pool of 2 threads with at most 3 (thorough 6) preemptions; 100 slots and 400 emissions on pools of 1, 2 and 4 threads without preemptions")
add("C45", [J(F, "c45_ids", [2, 2], conc=True), J(F, "c45_ids", [3, 1], conc=True), J(F, "c45_ids", [3, 2], conc=True), J(F, "c45_many", [1100], [5000])],
    "3 threads requesting 2 identifiers each, all schedules; 1100 (thorough 5000) identifiers from one thread")
F = "owner.cpp"
add("C19", [J(F, "c19_sequence", [4, 0], [5, 0], covers=["sequence", "guarded"]), J(F, "c19_sequence", [4, 1], [5, 1], covers=["sequence", "guarded"]), J(F, "c19_sequence", [3, 1, 1], [4, 1, 1], covers=["sequence"]), J(F, "c19_much", [300], [1000])] +
    [J(F, "c19_threads", [w, 1, h], conc=True, covers=["threads", "guarded", "gone"]) for w in range(4) for h in range(3)] +
    [J(F, "c19_threads", [w, 2, 0], conc=True, covers=["threads", "guarded", "gone"]) for w in (0, 3)],
    "any 4 (thorough 5) operations on two owners, two lessees and two guards; 300 (1000) lessees and guards of one object; up to 2 lessee threads against each way of giving the data up, all schedules")
F = "database.cpp"
add("C21", [J(F, "c21_ints", [2], [3], covers=["ints", "done", "refused", "found", "missing"]), J(F, "c21_keys", [4], [5], covers=["keys", "done", "refused", "found", "missing"]), J(F, "c21_strings", [2], [3], covers=["strings", "done", "refused", "found", "missing"]), J(F, "c21_much", [40], [100])],
    "every sequence of 2 (thorough 3) operations with any int keys and values, of 4 (5) with keys among three and any values, and of 2 (3) with any texts of up to one byte; 40 (100) keys added in three orders, a third erased, then any operation with any key")
add("C22", [J(F, "c22_pair", [a, b], conc=True) for a in range(9) for b in range(a + 1)] + [J(F, "c22_adds", [n], conc=True) for n in (2, 3)] +
    [J(F, "c22_iterator", [w, h, 1], conc=True, covers=["iterator"]) for w in range(4) for h in range(4)] + [J(F, "c22_iterator", [w, 0, 2], conc=True, covers=["iterator"]) for w in (1, 3)],
    "every pair of the nine operations with two keys, from an empty or one-element database; one iterator against up to two writers; up to three adds of one key; all schedules",
    ["std::shared_timed_mutex over the default (reader preferring) rwlock of glibc"])
F = "pool.cpp"
add("C23", [J(F, "c23_custom", [7], [9], covers=["sequence", "refused", "reuse", "grow", "toomany"]), J(F, "c23_plain", [7], [9], covers=["sequence", "refused", "reuse", "grow", "toomany"]), J(F, "c23_lent"), J(F, "c23_much", [300], [600]), J(F, "c23_destroy")],
    "initial size 0 to 2, growth step 0 to 3, every sequence of 7 (thorough 9) loans and returns; 300 (600) loans at a time with initial sizes up to 64 and steps up to 1000, returned in three orders", ["only lent elements are returned, apart from returns when none is lent"])
F = "types.cpp"
add("C20", [J(F, "c20_sequence", [3], [4], covers=["sequence", "three", "shared"]), J(F, "c20_plain")],
    "every sequence of 3 (thorough 4) creations, copies, moves and assignments over three wrappers of three classes, left empty by moves included, any values")
add("C24", [J(F, "c24_sequence", [2], [4], covers=["sequence", "equal", "different"]), J(F, "c24_text")],
    "every sequence of 2 (thorough 4) operations on two objects with any int values and any level of 16 bits")
add("C25", [J(F, "c25_shape", [n], [n], covers=["shape"]) for n in (1, 2, 3, 4, 5)] + [J(F, "c25_shape", [n], [n], covers=["shape"], thorough_only=True) for n in (6,)] + [J(F, "c25_much", [100], [300])],
    "every tree of up to 5 (thorough 6) nodes built in four ways, any information in the nodes; chains and broad trees of 100 (300) nodes")
add("C26", [J(F, "c26_keys", [2], [3], covers=["found", "unknown", "refactored"]), J(F, "c26_values", [1], [2], covers=["found", "unknown"]), J(F, "c26_macro", covers=["found", "unknown"]), J(F, "c26_much", [300], [600], covers=["found", "unknown"])],
    "tables of up to 2 (thorough 3) keys of up to 2 bytes with any values; two values with up to two one-byte keys each; any text of up to 2 bytes asked; tables of 300 (600) keys")
add("C27", [J(F, "c27_three", [2], [3], covers=["known", "unknown"]), J(F, "c27_many", covers=["known", "unknown"]), J(F, "c27_macros"), J(F, "c27_macros_more", covers=["macros"])],
    "enumerations of 1, 3 and 18 values; every text of up to 2 (thorough 3) bytes, for 18 values every text of 2 or 3 bytes; argument counts 1 to 18")
add("C28", [J(F, "c28_singleton", [n], conc=True) for n in (1, 2)] + [J(F, "c28_safe", [n], conc=True, covers=["safe", "nothing"]) for n in (1, 2)] + [J(F, "c28_safe", [3], conc=True, covers=["safe", "nothing"], weight=4), J(F, "c28_plain")],
    "up to three threads with first accesses and initialisations of every kind, all schedules")
add("C29", [J(F, "c29_exclusive", a, conc=True) for a in ([2, 1, 0], [2, 2, 1], [3, 1, 0])] + [J(F, "c29_shared", [1], conc=True, covers=["shared"]), J(F, "c29_shared", [2], conc=True, covers=["shared", "together"])],
    "up to three threads with up to two operations each; one writer and up to two readers; all schedules")
add("C30", [J(F, "c30_sequence", [2], [3], covers=["sequence"]), J(F, "c30_seed"), J(F, "c30_much", [1300], [3000])] + [J(F, "c30_threads", a, conc=True) for a in ([2, 1, 1], [2, 2, 0], [3, 1, 0])],
    "every seed for the first numbers, sequences of 2 (thorough 3) operations with six seeds, 1300 (3000) draws; up to three threads, all schedules", ["std::random_device gives any number"])
F = "mangling.cpp"
add("C07", [J(F, "c07_any", [8], [14], covers=["any", "slash"],), J(F, "c07_pieces", [4], [6], covers=["pieces", "slash", "service"]), J(F, "c07_prefix", [6], [12], covers=["present", "absent"]), J(F, "c07_much", [300], [1100])],
    "every name of up to 8 bytes (thorough 14), and every sequence of up to 4 (6) pieces among the prefixes, the suffixes, a slash and any byte; any prefix of up to 2 bytes; names of over 300 (1100) bytes with any two neighbouring ones")
add("C08", [J(F, "c08_any", [8], [10], covers=["any"],), J(F, "c08_pieces", [5], [7], covers=["pieces", "type", "service"]), J(F, "c08_slashes", [5], [7], covers=["slashes", "message", "mangled service"]),
            J(F, "c08_roundtrip", [4], [8],), J(F, "c08_much", [150], [500])],
    "every type of up to 8 bytes (thorough 10), every sequence of up to 5 (7) pieces among the markers, the suffixes, separators and any byte; names of up to 4 (8) characters for the round trip; types of over 220 (750) bytes with any two neighbouring ones")
F = "text.cpp"
add("C05", [J(F, "c05_any", [4], [5], covers=["whole", "refused"])] + [J(F, "c05_built", [n], [n], covers=["whole", "refused"]) for n in (1, 2, 3, 4)] + [J(F, "c05_built", [n], [n], covers=["whole", "refused"], thorough_only=True) for n in (5,)] + [J(F, "c05_limits", covers=["fits", "refused"]), J(F, "c05_huge"),
            J(F, "c05_fraction", covers=["accepted", "exact", "refused"]), J(F, "c05_format", [1], covers=["whole"]), J(F, "c05_format", [0], covers=["whole", "decimals"]), J(F, "c05_unit")],
    "every text of up to 4 bytes (thorough 5); every number of 1 to 4 (5) digits with any blank and each unit in any case or any two letters; 31 whole numbers around the limits (2^53, 2^63, 2^64 and their quotients by the units, up to 33 digits, 400 digits) and 80 numbers with decimals, each with every unit; formatting of every whole number of units below 1000 and of 3000 quantities chosen around one hundredth and the rounding of two decimals",
    ["the regular expression engine of libstdc++ is executed itself; the number reader is a model, correctly rounded up to 25 digits", "text of numbers with decimals is checked as the number, precision and notation handed to the stream"])
add("C10", [J(F, "c10_pointers", [2], [3], covers=["equal", "different"]), J(F, "c10_convert", [4], [4]), J(F, "c10_class"), J(F, "c10_print", [3], [4]), J(F, "c10_much", [20], [40], covers=["equal", "different"])],
    "every two sets of up to 2 (thorough 3) pointers, each null, shared with an earlier one or to any value; conversion and keys of 4 arbitrary values; containers of up to 3 (4) texts of up to 2 bytes with any separator of up to 2 bytes; containers of 20 (40) elements with any one among them, null or not")
add("C11", [J(F, "c11_days", [8], [16]), J(F, "c11_date", [4, 3], [10, 7]), J(F, "c11_roundtrip", [2], [8], covers=["round trip"]), J(F, "c11_limits", covers=["accepted", "refused"]), J(F, "c11_parse", [1], [2], covers=["accepted", "refused"]), J(F, "c11_local", [3], [10], covers=["local", "summer"]), J(F, "c11_time")],
    "dates: every day of 8 (thorough 16) years from 1678 to 2261 at 4 hours, and any hour, minute or second (the others chosen) on 24 (140) days; round trip of every hour, minute and second (the others chosen) on 8 (32) days; 27 texts and 19 dates around and far outside the limits, 10 texts for 5 other formats; two texts with any 1 (2) neighbouring bytes replaced by anything but a blank, whole or cut at any length; 6 time zones with and without daylight saving, 2 formats; time of day with the clock on 168 moments",
    ["gmtime, localtime, timegm, mktime and the facets that read and write dates are models (Gregorian calendar, a fixed offset for the local zone, plus an hour from April to September where daylight saving is on; as libstdc++ reads)"])
add("C41", [J(F, "c41_map"), J(F, "c41_compare")], "every 32-bit code of the middleware, every pair of codes", ["values of the codes as in Fast DDS 3"])
add("C42", [J(F, "c42_id", covers=["known", "unknown"]), J(F, "c42_mask")], "every 32-bit kind; masks of up to 3 kinds, of all but up to 3, and every subset of each window of 5 neighbouring kinds")
add("C44", [J(F, "c44_formatter", [2], [3]), J(F, "c44_much", [200], [600]), J(F, "c44_exceptions", [4], [6], covers=["exceptions", "long"])], "every sequence of up to 2 (thorough 3) pieces among texts of up to 3 bytes, characters, numbers, formatters and literals; 200 (600) pieces; every exception with every text of up to 4 (6) bytes without a null byte, alone and at the end of a text of 700 bytes, built from text, from a literal and from a formatter")
add("C43", [J(F, "c43_any", [4], [5], covers=["lines"]), J(F, "c43_mix", [4], [5], covers=["lines"]), J(F, "c43_buffer", [4], [5], covers=["lines"]), J(F, "c43_missing")],
    "every content of up to 4 bytes (thorough 5), every sequence of up to 4 (5) pieces among line ends, carriage returns, text, blanks and any byte, and contents of over 8 KiB around the end of the buffer of the stream; missing and unreadable files",
    ["the file itself is a model below the file buffer of libstdc++, which is executed itself"])
F = "ui.cpp"
add("C38", [J(F, "c38_moves", [6, 1], [8, 1], covers=["moves", "empty", "oldest", "newest"]), J(F, "c38_moves", [4, 3], [5, 4], covers=["moves"]), J(F, "c38_much", [1100], [3000])],
    "every sequence of 6 (thorough 8) additions of texts of up to one byte and moves, and of 4 (5) with texts of up to 3 (4) bytes; 1100 (3000) commands")
add("C37", [J(F, "c37_edit", [5, 0, 1, 81], [6, 0, 1, 81], conc=True, preempt=0, weight=4, covers=["edit", "left", "right", "backspace", "delete", "home", "end"]),
            J(F, "c37_edit", [4, 0, 1, 6], [5, 0, 1, 6], conc=True, preempt=0, covers=["edit", "left", "right", "backspace", "delete", "home", "end"]),
            J(F, "c37_edit", [5, 1, 3, 0], [7, 1, 4, 0], conc=True, preempt=0, covers=["edit", "up", "down", "end_of_input"]),
            J(F, "c37_edit", [4, 1, 2, 3], [6, 1, 3, 3], conc=True, preempt=0, covers=["edit", "up", "down", "end_of_input"]),
            J(F, "c37_edit", [4, 2, 3, 1], [5, 2, 4, 1], conc=True, preempt=0, weight=4, covers=["edit", "pageup", "pagedown", "cancel", "ignoring"])] +
    [J(F, "c37_much", [n, c], conc=True, preempt=0, covers=["much"]) for n, c in ((100, 81), (100, 21), (300, 81))] +
    [J(F, "c37_edit", [4, 3, 2, 0], [5, 3, 3, 0], conc=True, preempt=0, covers=["edit", "broken"])] +
    [J(F, "c37_history", a, b, conc=True, preempt=0, covers=["history", "up", "down", "pageup", "pagedown", "left", "delete"]) for a, b in (([4, 81], [5, 81]), ([3, 4], [5, 4]))] +
    [J(F, "c37_edge", a, conc=True, preempt=0) for a in ([75, 0], [15, 21], [4, 1], [155, 81])] +
    [J(F, "c37_requests", a, conc=True) for a in ([1, 0, 0], [1, 1, 0], [2, 0, 1], [2, 0, 0], [1, 1, 2], [2, 1, 2])],
    "every sequence of 5 (thorough 6) keys among any character, the four moves and the two deletions; of 5 (7) keys among letters, line ends, history moves and backspace; of 4 (5) keys among letters, line ends, "
    "page keys, insert, cancel, an unknown sequence, cursor left and turning the history off; terminals of 80, 5, 2 and an unknown number of columns; lines of 100 and 300 characters edited at three places; sequences with a foreign byte inside; 4 (5) keys among all cursor and history moves and deletions on a line after two remembered ones, the last beginning with any character; lines as long as the terminal is wide edited near their end; up to 3 requests for a line against the reader, all schedules",
    ["key sequences arrive whole; what is drawn on the terminal is executed but not compared"])
add("C39", [J(F, "c39_line", [7, 0], [9, 0], conc=True, preempt=0, weight=3, covers=["line", "known", "unknown", "several", "quoted"]), J(F, "c39_line", [4, 1], [6, 1], conc=True, preempt=0, covers=["line", "known", "unknown", "several"]),
            J(F, "c39_much", [600], [1500], conc=True, preempt=0), J(F, "c39_sequence", [3], [4], conc=True, preempt=0), J(F, "c39_destroy", [0], conc=True), J(F, "c39_destroy", [1], conc=True)],
    "every line of up to 7 (thorough 9) characters among a letter, the space and the double quote, and of up to 4 (6) of any character; lines of 600 (1500) characters with any two neighbouring ones; three commands; any sequence of 3 (4) of five lines; destruction right after a command, all schedules")
F = "logs.cpp"
add("C35", [J(F, "c35_sequence", [5], [6], covers=["sequence", "severe", "unset", "replaced", "destroyed"]), J(F, "c35_checker", [5], [7], covers=["valid", "invalid"])] +
    [J(F, "c35_lifetime", a, conc=True) for a in ([0, 1, 0], [0, 2, 0], [1, 1, 0], [1, 1, 1], [1, 2, 1], [0, 3, 0])] + [J(F, "c35_creation", [n], conc=True) for n in (1, 2)],
    "every sequence of 5 (thorough 6) entries of any severity, callback changes and destructions with a handler and a severe handler of any threshold; up to 5 (7) entries of any severity with any 32-bit limits; "
    "one logging thread with up to 3 entries against construction and destruction, all schedules",
    ["the logging library is a stand-in that runs the registered consumers one entry at a time"])
add("C40", [J(F, "c40_settings", [5], [6], covers=["settings", "replaced", "kept", "filters"])] +
    [J(F, "c40_accept", [1, 3, p, 1], [2, 5, p, 1], covers=["printed", "refused"]) for p in range(8)],
    "every sequence of 5 (thorough 6) settings with any values and any 32-bit precedence levels; eight filters (the empty one, literals, alternatives, anchors, any character, repetition) with every category of 1 (2) "
    "and every text of 3 (5) bytes, every severity and verbosity",
    ["the regular expression engine is libstdc++'s own code, executed; the printing helpers of the logging library are stand-ins"])
F = "events.cpp"
add("C31", [J(F, "c31_sequence", [6], [8], covers=["sequence", "replaced", "ignored", "at_zero", "not_set"])] +
    [J(F, "c31_much", [1100], [5000])] + [J(F, "c31_producers", a, conc=True) for a in ([2, 2], [2, 3], [3, 2])] + [J(F, "c31_producers", a, conc=True, thorough_only=True) for a in ([2, 6], [3, 4], [4, 2])] +
    [J(F, "c31_waiters", [n], conc=True) for n in (2, 3, 5)] + [J(F, "c31_unset", a, conc=True, covers=c) for a, c in (([1, 1], ["unset", "enough", "released"]), ([2, 2], ["unset", "enough", "released"]), ([4, 3], ["unset", "enough", "released"]), ([1, 2], ["unset", "released"]))] +
    [J(F, "c31_replace", a, conc=True, covers=["replace", "both"]) for a in ([2, 1], [1, 2], [3, 2])] + [J(F, "c31_destroy", a, conc=True) for a in ([1, 0], [2, 1], [3, 2])] +
    [J(F, "c31_toggle", [m, e], conc=True, covers=["toggle"] if m else ["toggle", "changed"]) for m in (0, 1, 2) for e in (0, 1)],
    "every sequence of 6 (thorough 8) operations (set, replace, unset, event with any value, reset, decrement, wait for any number); 1100 (5000) events; up to 3 producers, 2 waiters and one thread changing the callback, all schedules",
    ["callbacks that change their own handler are outside the bounds", "a wait that is not yet inside when the handler is destroyed is the caller's error"])
add("C32", [J(F, "c32_zero", conc=True, covers=["refused", "accepted"]), J(F, "c32_sequence", [5], [7], conc=True, covers=["sequence", "elapsed"])] +
    [J(F, "c32_period", a, conc=True) for a in ([4, 0, 0], [4, 0, 1], [3, 1, 0])] + [J(F, "c32_stop", a, conc=True, covers=["stop", "called"]) for a in ([2, 0], [2, 1], [2, 2], [4, 0], [4, 2])],
    "any 32-bit period; five periods up to the largest for the spacing of up to 4 calls; 4 periods and all schedules for stopping",
    ["time is virtual: a wait ends at its deadline or later", "a callback that removes itself is outside the bounds"])
add("C33", [J(F, "c33_sequence", [5], [6], covers=["sequence", "event", "ignored"])] + [J(F, "c33_much", [40], [100])] + [J(F, "c33_count", a, conc=True) for a in ([2, 1], [2, 2], [3, 1])] +
    [J(F, "c33_destroy", a, conc=True, covers=["destroy", "some"]) for a in ([1, 2, 0], [2, 2, 0], [1, 2, 1], [2, 1, 1])],
    "every sequence of 5 (thorough 6) registrations of three kinds of parts, events and callback changes; 40 (100) parts; 2 parts with 2 events each, all schedules",
    ["parts stop raising events while they are disabled, as the library's own handlers do"])
add("C34", [J(F, "c34_sequence", [4], [5], conc=True, covers=["sequence", "twice", "signal"])] +
    [J(F, "c34_much", [40, 5], [100, 10], conc=True, preempt=0)] + [J(F, "c34_delivery", a, conc=True) for a in ([1, 1, 0], [3, 1, 0], [2, 2, 1], [3, 2, 1])] + [J(F, "c34_handlers", a, conc=True) for a in ([1, 1], [2, 1], [1, 2])] +
    [J(F, "c34_leave", a, conc=True) for a in ([1, 0], [1, 1], [2, 0], [2, 1])] + [J(F, "c34_join", [n], conc=True, covers=["join", "all", "only_new"]) for n in (1, 2)] + [J(F, "c34_destruction", [n], conc=True) for n in (0, 1)],
    "up to 3 signals from up to 3 threads, 2 handlers, one leaving or joining; every sequence of 4 (thorough 5) registrations, removals and signals with any identifier; 40 (100) callbacks and 6 (11) signals",
    ["the signal arrives on a thread that does not hold a lock of the manager", "a wait with a time limit ends at its deadline"])
add("C36", [J(F, "c36_sequence", [5], [6], covers=["sequence", "failed", "modified", "other"])] + [J(F, "c36_stop", a, conc=True, covers=["stop", "called"]) for a in ([1, 0], [1, 1], [2, 2])],
    "every path of up to 2 bytes and every sequence of 5 (thorough 6) callback changes, events of the five kinds and start failures; up to 2 changes reported while the handler is disabled or destroyed, all schedules",
    ["the watching library is a stand-in that waits for a report in progress when a watch ends"])

P = ""
add_py("C46", [J(P, "c46_alone", covers=["disabled", "met", "timeout"]), J(P, "c46_sequence", [3], [4]), J(P, "c46_setter", [1, 0], covers=["met", "disabled"]),
               J(P, "c46_setter", [1, 1], [2, 1], covers=["met", "timeout"], weight=3), J(P, "c46_setter", [2, 0], covers=["met", "disabled"], weight=3), J(P, "c46_count", [2]), J(P, "c46_count", [3], thorough_only=True),
               J(P, "c46_open", covers=["open"])] + [J(P, "c46_two", a, covers=["two"]) for a in ([0, 1, 2], [1, 1, 2], [2, 0, 1], [2, 2, 0], [1, 0, 0], [0, 0, 0])] +
       [J(P, "c46_disable", a) for a in ([0, 1, 0], [0, 2, 0], [0, 2, 1], [1, 1, 0], [1, 2, 0], [1, 1, 1], [1, 2, 1])] +
       [J(P, "c46_left", a) for a in ([1, 0], [1, 1], [2, 0], [2, 1])] + [J(P, "c46_entering", a) for a in ([0], [1])] + [J(P, "c46_again", covers=["left", "stayed"]), J(P, "c46_reenabled", [1]), J(P, "c46_reenabled", [2])] +
       [J(P, "c46_boolean", [0], covers=["met", "disabled"]), J(P, "c46_boolean", [1], covers=["met", "disabled", "timeout"])],
       "any integers of any size as values, operands and thresholds; up to 2 waiting threads and 2 changing ones (thorough 3), every sequence of 3 (thorough 4) operations, waits without limit and with one",
       ["a wait with a time limit ends at its deadline or later", "a blocking disable is not called by a thread that another waiter waits for"])
add_py("C47", [J(P, "c47_timer", [4], [6], covers=["timer", "reset", "elapsed"])], "every sequence of 4 (thorough 6) resets, readings and other timers, any real clock readings (also clocks set back)", ["clock readings are exact real numbers"])
add_py("C48", [J(P, "c48_values", a) for a in ([2, 1], [1, 1, 1], [3], [1])] + [J(P, "c48_values", [2, 2, 1], thorough_only=True), J(P, "c48_namespaces", [2, 1]), J(P, "c48_namespaces", [1]), J(P, "c48_namespaces", [1, 1, 1]),
               J(P, "c48_words"), J(P, "c48_main", [2, 2, 2], weight=2), J(P, "c48_main", [3, 3, 3], thorough_only=True)],
       "up to 3 values and 3 namespaces with names of up to 3 characters (any letter, digit or underscore), either separator, up to two blanks before, inside or after each name, any enumeration name of up to 3 characters",
       ["names are not empty and made of letters, digits and underscores; the command line is already split into its arguments"])
add_py("C49", [J(P, "c49_logger", [3], [4], covers=["formatted", "written", "ignored"]), J(P, "c49_separate", covers=["separate"]), J(P, "c49_decorator", covers=["raised", "finished", "quiet"]),
               J(P, "c49_introspection", covers=["written", "quiet"])],
       "any positive levels; every sequence of 3 (thorough 4) level changes, format changes and messages on the shared logger or one of its own; up to 2 positional arguments and a named one, four outcomes, two calls",
       ["the logging library is Python's own, executed, without its memory of earlier level checks", "levels are positive"])
F = "generated.cpp"
add("C51", [J(F, "c51_three", [3], [4], covers=["known", "unknown"]), J(F, "c51_many", covers=["known", "unknown"]), J(F, "c51_one", [3], [4], covers=["known", "unknown"]),
            J(F, "c51_comma", [4], [5], covers=["known", "unknown"]), J(F, "c51_words", [6], [9], covers=["known", "unknown"])],
    "five headers written by the generator when the check runs: 1, 3, 4 and 34 values, up to four nested namespaces, both separators, names equal to the words of the template; every text of up to 3 (thorough 4) bytes "
    "(4 to 6 (9) for longer names)", ["the five lists of names are fixed; C48 decides what is written for any names"])
