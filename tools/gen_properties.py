#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
I = "include/lru/"
B, C, T = I+"internal/base-cache.hpp", I+"cache.hpp", I+"timed-cache.hpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
        observe_at=observe or [], hook_needed=None)))

prop("C01", "Capacity is a hard bound on the number of entries",
 "After every operation a cache holds at most as many entries as its capacity (a cache of capacity 0 stores nothing), and size, is_empty, is_full and space_left agree with each other and with the entries that iteration reaches. Setting a lower capacity or shrinking leaves exactly min(old size, requested) entries, raising it removes none, and assigning from a range raises the capacity to the length of the range only when that is larger than the current capacity.",
 ["histories", "inputs"], "every history of insertions, emplacements, updates, lookups, erasures, capacity changes, shrinks, range insertions/assignments, every capacity value and every key pattern",
 "Tests insert a handful of fixed string keys with capacities 2, 10, 100 or 128; no test mixes capacity changes, updates and range assignments, or varies which keys coincide.",
 [B, C, T], [("insert/emplace evict when too full", B+": insert, emplace, _insert_new_key, _is_too_full, _evict_lru_for"), ("capacity(n), shrink(n)", B), ("range assignment", B+": _clear_and_increase_capacity")],
 ["size()", "capacity()", "space_left()", "is_full()", "is_empty()", "ordered/unordered iteration"])

prop("C02", "Eviction removes exactly the least recently used entry",
 "Inserting or emplacing a new key into a full cache removes exactly one entry, the one whose last use (insertion, update or successful lookup) lies furthest back; inserting a key that is already present removes nothing. Lowering the capacity and shrinking remove entries in that same least-recently-used-first order, and every entry that is not removed keeps its key and value.",
 ["histories", "inputs"], "every history and key pattern, every capacity",
 "Three tests evict one fixed key from a cache of capacity 2; which entry must go after an arbitrary interleaving of lookups, updates, erasures and resizes is not settled by them.",
 [B, C, T], [("LRU slot is reused for the new key", B+": _evict_lru_for"), ("_erase_lru", B), ("use moves to the end of the queue", B+": _move_to_front")],
 ["contains()/find() per key after the operation", "ordered iteration", "front()/back()"])

prop("C03", "Only uses change the recency order, and each use makes the key newest",
 "Ordered iteration always runs from the least to the most recently used entry (front() is the newest key, back() the oldest), where inserting, updating and every successful lookup (contains, find, lookup, operator[]) make that key the newest and leave the relative order of all other entries alone. Failed lookups, iteration, dereferencing or comparing iterators, erasing other keys, statistics, size queries and expiry queries never change the order.",
 ["histories", "inputs"], "every history over all public operations, every key pattern",
 "Tests check the order after at most two operations on two or three fixed keys; the shortcut for the last accessed key makes the order depend on hidden history.",
 [B, C, T], [("_move_to_front", B), ("find()", C+", "+T), ("last accessed shortcut assumes the key is already newest", B+": contains, lookup")],
 ["ordered_begin()..ordered_end()", "front()", "back()"])

prop("C04", "Lookups return the value most recently stored under the key",
 "For every key, contains, find, lookup and operator[] (const and non-const) agree: they succeed exactly when the key was stored and has since not been erased, evicted, cleared or (in a timed cache) expired, and they yield the value most recently stored for that key, including a value assigned through a returned reference or iterator. Otherwise contains returns false, find returns the end iterator and lookup/operator[] throw KeyNotFound, and a failed lookup stores nothing.",
 ["histories", "inputs"], "every history, every key and value; every choice of lookup function",
 "Tests look up keys they have just inserted; stale answers from the last-accessed shortcut need specific sequences (access, then erase/evict/clear/update/swap, then access again).",
 [B, C, T, I+"internal/last-accessed.hpp"], [("last accessed shortcut and its invalidation", B+": contains, lookup, _erase, clear; "+I+"internal/last-accessed.hpp"), ("find", C+", "+T)],
 ["contains()", "find()", "lookup()", "operator[]"])

prop("C05", "Insertion results tell the truth",
 "insert and emplace report was_inserted exactly when the key was not in the cache before, and the iterator they return refers to the entry for that key holding the value just stored; with capacity 0 they report false and the end iterator. Inserting a range or list returns the number of its elements that were newly inserted.",
 ["histories", "inputs"], "every prior state, key, value and range (including ranges with repeated keys and ranges longer than the capacity)",
 "Tests check the results for one key inserted twice and two disjoint ranges; not for repeated keys within a range, keys evicted while the range is inserted, or a full cache.",
 [B, I+"insertion-result.hpp"], [("insert, emplace, range insert", B)], ["InsertionResult", "return value of range insert"])

prop("C06", "Erasure removes exactly the designated entry and nothing else",
 "Erasing by key returns true and removes that entry exactly when the key is stored, and otherwise returns false and changes nothing; erasing through an ordered or unordered iterator removes exactly the entry it refers to, expired or not. Erasing an end iterator throws InvalidIterator and changes nothing, clear removes everything, and in every case the remaining entries keep their values and relative order and the cache stays fully usable.",
 ["histories", "inputs"], "every prior history, every entry and every way of designating it",
 "Tests erase a single fixed key; erasure by iterator, erasure of the last accessed entry versus others and re-insertion afterwards are not covered.",
 [B, T], [("erase overloads", B), ("_erase keeps map, queue and last accessed in step", B)], ["erase() results", "iteration and lookups afterwards"])

prop("C07", "A copy equals its source and is independent of it",
 "Copy construction (in any initialisation form, from const or non-const sources) and copy assignment produce a cache with the same entries, values, recency order and capacity (and time to live), and leave the source unchanged. Afterwards no operation on either cache, including destroying it, is observable through the other's entries or order.",
 ["histories", "inputs"], "every source and target state, every later history on either cache, either order of destruction",
 "Tests copy an empty cache and compare capacities; nothing is looked up, modified or destroyed after copying a non-empty cache.",
 [B, C, T], [("copy constructor and assignment, _reassign_references", B), ("overload sets of constructors and operator=", C+", "+T)], ["all observers on both caches"])

prop("C08", "Move and swap transfer the whole contents",
 "Swapping two caches exchanges their entries, values, recency order and capacities (and times to live); move construction and move assignment give the target exactly what the source had; a cache swapped with or moved onto itself keeps everything. Both caches remain valid and fully usable afterwards, in particular still bounded by the capacity they report.",
 ["histories", "inputs"], "every pair of states and every later history on both caches",
 "Tests swap two one-element caches and check the capacity after one move; later evictions, lookups of the last accessed key and use of the moved-from cache are not exercised.",
 [B, T], [("swap, move constructor, move assignment", B+"; "+T)], ["all observers on both caches"])

prop("C09", "A timed cache serves a fresh entry and never an expired one",
 "An entry whose age (time since its key was last inserted or updated, at the resolution of the cache's Duration; lookups do not renew it) exceeds the time to live is never served: contains is false, find returns end, lookup and operator[] throw KeyNotFound or KeyExpired, has_expired is true. While the age does not exceed the time to live and the entry was neither erased nor evicted it is always served with its current value and has_expired is false; keys that are not stored are never reported as expired.",
 ["histories", "inputs", "schedules"], "every non-decreasing sequence of clock readings, every time to live, every history and lookup function, whether or not the key was the last one accessed",
 "The tests sleep one or two milliseconds around a 2 ms time to live (and are too flaky to be run); boundary ages, updates of expired entries and the last-accessed shortcut are out of their reach.",
 [T, I+"internal/timed-information.hpp", B], [("_has_expired, find, _last_accessed_is_ok, _value_for_last_accessed", T), ("insertion time", I+"internal/timed-information.hpp")], ["contains()", "find()", "lookup()", "operator[]", "has_expired()"])

prop("C10", "all_expired and clear_expired are exact",
 "all_expired is true exactly when every entry of a timed cache has expired (hence for an empty one), whatever order entries were inserted and looked up in. clear_expired removes exactly the expired entries, returns how many there were, and leaves the others with their values, relative order and remaining lifetime.",
 ["histories", "inputs", "schedules"], "every history of insertions, updates and lookups, every clock sequence",
 "The one test never looks an entry up between insertions, so the recency order always coincides with the insertion order there.",
 [T], [("all_expired, clear_expired", T)], ["all_expired()", "clear_expired()", "iteration afterwards"])

prop("C11", "Every lookup is counted once, as a hit or a miss",
 "While a cache is monitored, each call of contains, find, lookup or operator[] adds exactly one access to its statistics: a hit if the call found the key and a miss otherwise (an expired key is a miss), both in the totals and, if the key is individually monitored, for that key and no other. Insertion, emplacement, erasure, iteration and all other operations count nothing, a shared statistics object receives the sum over its caches, and after stop_monitoring nothing is counted.",
 ["histories", "inputs", "schedules"], "every history, key pattern and monitored-key set, including repeated access to the same key and expiry of the last accessed key",
 "One test walks a single fixed sequence; accesses served by the last-accessed shortcut for expired entries and several caches sharing statistics are not exercised.",
 [B, C, T, I+"internal/statistics-mutator.hpp", I+"statistics.hpp"], [("_register_hit/_register_miss", B), ("register_hit/register_miss", I+"internal/statistics-mutator.hpp")], ["stats().total_*()", "stats().hits_for()/misses_for()"])

prop("C12", "Callbacks fire exactly once per lookup, with the right arguments",
 "Each successful contains, find, lookup or operator[] calls every registered hit callback once with the key and its current value and every access callback once with true; each unsuccessful one (including one that finds an expired key) calls every miss callback and every access callback (with false) once with the key. Callbacks of a kind run in registration order, nothing else ever calls them, and cleared callbacks are not called again.",
 ["histories", "inputs"], "every history, any number of callbacks of each kind, every key pattern",
 "Tests register one callback of each kind and use three fixed keys; repeated lookups, several callbacks and timed caches are not covered.",
 [B, I+"internal/callback-manager.hpp", C, T], [("hit, miss, _call_each", I+"internal/callback-manager.hpp"), ("_register_hit/_register_miss", B)], ["callback invocations and arguments"])

prop("C13", "Iteration visits every entry exactly once, in either direction",
 "Unordered iteration visits every stored entry exactly once with its current value; ordered iteration visits the same entries in recency order, and decrementing retraces it. An ordered iterator made from an unordered one (or a const one from a non-const one) refers to the same entry and continues in recency order, ordered and unordered iterators compare equal exactly when they refer to the same entry (or both to the end of the same cache), and converting an end iterator throws InvalidIteratorConversion.",
 ["histories", "inputs"], "every cache state and every iterator position",
 "Tests iterate over one freshly filled cache and convert one iterator.",
 [I+"internal/base-ordered-iterator.hpp", I+"internal/base-unordered-iterator.hpp", I+"internal/base-iterator.hpp", B], [("operator++/--, conversion constructors, comparisons", I+"internal/base-ordered-iterator.hpp, "+I+"internal/base-unordered-iterator.hpp")], ["iterator dereference and comparison"])

prop("C14", "Checked iterator access reports exactly the invalid iterators",
 "For iterators of a cache, is_valid is true exactly when the iterator is not past the end and (in a timed cache) its entry has not expired; throw_if_invalid, entry(), key() and value() throw InvalidIterator for an end iterator and KeyExpired for an expired entry, and otherwise give the entry's key and current value. Plain dereferencing with * or -> of a non-end iterator yields the entry's key and current value, expired or not, without throwing.",
 ["histories", "inputs", "schedules"], "every cache state, iterator kind and position, every clock sequence, including iterators dereferenced before they expire or before they are advanced",
 "Tests use 0 ms or 1 ms times to live and fresh iterators on one-element caches.",
 [I+"internal/base-ordered-iterator.hpp", I+"internal/base-unordered-iterator.hpp", B, T], [("is_valid, throw_if_invalid", B+", "+T), ("entry, key, value, operator*, cached entry reset on ++/--", I+"internal/base-*-iterator.hpp")], ["is_valid()", "throw_if_invalid()", "entry()", "key()", "value()", "*it"])

prop("C15", "Equality compares entries, values and order",
 "Two caches compare equal exactly when they hold the same keys with equal values in the same recency order, whatever histories, capacities or hash layouts led there (in a timed cache the insertion times must agree as well); != is always the negation, and comparing changes neither cache.",
 ["histories", "inputs"], "every pair of histories",
 "One test compares two caches built by identical insertions, and once after an erasure.",
 [B, I+"internal/information.hpp", I+"internal/timed-information.hpp"], [("operator==", B), ("Information::operator==", I+"internal/information.hpp")], ["operator==", "operator!="])

prop("C16", "A wrapped function returns what the function returns",
 "A function wrapped with wrap or timed_wrap returns, for every sequence of argument tuples, a value the original function returned for exactly those arguments, and calls the original exactly when those arguments are not (or no longer: evicted under the given capacity, or expired under the given time to live) cached. Every wrapped function has its own cache, built from the cache arguments given when it was wrapped, even if several wrapped functions have the same type.",
 ["inputs", "histories", "schedules"], "every sequence of calls with arbitrary arguments, every capacity and time to live, several wrapped functions of the same type",
 "Tests call one wrapped lambda with three fixed arguments and never use a second wrapped function of the same type; the lifetime of the forwarded cache arguments is not observable there.",
 [I+"wrap.hpp", I+"internal/hash.hpp", I+"internal/utility.hpp"], [("wrap, timed_wrap", I+"wrap.hpp"), ("construct_from_tuple", I+"internal/utility.hpp"), ("hash of tuples", I+"internal/hash.hpp")], ["return values", "calls of the wrapped function"])

prop("C17", "No history of valid calls touches invalid memory or leaks",
 "Whatever sequence of public operations is performed on any number of caches (within each operation's documented preconditions), the library never reads or writes memory outside a live object, never uses uninitialised data, never frees twice, never terminates the program, and releases everything it allocated when the caches are destroyed.",
 ["histories", "inputs", "schedules"], "every history of public operations over one or more caches, including self-referential arguments (keys and values that live inside the cache)",
 "The tests run without sanitizers and only single short sequences; dangling references in the queue, the last-accessed pointers and copied iterators need particular sequences to be dereferenced.",
 [B, I+"internal/last-accessed.hpp", I+"internal/optional.hpp"], [("queue of references into the map, iterators in the map into the queue", B), ("raw pointers of the last accessed entry", I+"internal/last-accessed.hpp")], ["memory accesses of every operation"])

prop("C18", "Range and list operations equal inserting element by element",
 "Constructing from, assigning from or inserting an iterator pair, lvalue range, rvalue range or initializer list gives the same cache as inserting the elements one after another in order (assignment clears first), and never modifies a source that was not passed as an rvalue. An explicitly given capacity is used as is; otherwise it is the number of elements for rvalue ranges and initializer lists, and at least the default capacity for iterator pairs and lvalue ranges.",
 ["inputs", "configurations"], "every range contents (repeated keys, longer than the capacity, empty), every value category and constructor form, both cache types",
 "Tests use three distinct keys per range and never look at the source range afterwards except in one rvalue case.",
 [B, C, T], [("range constructors, insert overloads, range operator=", B+", "+C+", "+T)], ["contents, order and capacity of the cache", "the source range afterwards"])

prop("C19", "A failing operation leaves the cache consistent",
 "If a user-supplied operation (copying or constructing a key or value, a callback) or a memory allocation throws during a lookup, insertion, emplacement or erasure, the exception reaches the caller and the cache stays consistent: size, lookups, iteration and capacity bound agree, keys the operation did not concern keep their values and relative order, and every later operation works normally.",
 ["fault_sequences", "histories"], "every operation, every prior state, and failure at each single fallible step of the operation",
 "No test makes an allocation, copy or callback fail.",
 [B, C, T], [("order of map and queue updates in insert/emplace", B), ("callbacks run before state changes", C+", "+T)], ["all observers after a caught exception"])

prop("C20", "Behaviour depends on the key equality, not on hashes or layout",
 "Two keys that the cache's key equality treats as equal denote the same entry in every operation, including accesses served without a hash lookup, and keys it treats as different never do, however their hashes collide. Apart from unordered iteration order, every observable result is the same for every hash function consistent with that equality, and hash_function/key_equal return the given functions also after copy, move and swap.",
 ["configurations", "inputs", "histories"], "every consistent pair of hash and equality function, every history",
 "The custom-hash tests only count calls of an ordinary hash and equality; colliding hashes and equalities other than == are never used.",
 [B, I+"internal/last-accessed.hpp", I+"internal/hash.hpp"], [("KeyEqual used by map and last accessed", B+", "+I+"internal/last-accessed.hpp"), ("hash of tuples", I+"internal/hash.hpp")], ["all observers with stateful hash/equality functions"])

prop("C21", "The statistics object does exact arithmetic per key",
 "For any numbers of recorded hits and misses, total_accesses equals hits plus misses, and hit_rate and miss_rate (once there was an access) are the corresponding ratios in [0, 1] and sum to 1; the counts of each monitored key add up from the lookups of that key since it was monitored or reset. Monitoring an already monitored key keeps its counts, unmonitoring forgets only that key, reset_key and reset_all zero the key counts and keep monitoring, and every query about an unmonitored key throws UnmonitoredKey.",
 ["histories", "inputs"], "every sequence of monitor, unmonitor, reset and lookups, every key pattern and every counter value",
 "Tests use counters up to 100 and never reset keys or re-monitor them.",
 [I+"statistics.hpp", I+"key-statistics.hpp", I+"internal/statistics-mutator.hpp"], [("Statistics", I+"statistics.hpp"), ("KeyStatistics", I+"key-statistics.hpp")], ["Statistics queries"])

prop("C22", "Iterators and references stay valid until their entry is removed",
 "An iterator, reference or pointer to an entry keeps referring to that same entry, with its current value, across any lookups, insertions, updates, capacity changes, evictions and erasures of other entries, and rehashing, until that entry itself is erased or evicted; references and pointers also survive moving or swapping the cache's contents. A value assigned through such a reference or iterator is what later lookups return.",
 ["histories", "inputs"], "every history that does not remove the entry, every iterator kind",
 "Tests hold an iterator across at most one insertion.",
 [B, I+"internal/base-ordered-iterator.hpp", I+"internal/base-unordered-iterator.hpp"], [("node-based map and queue, splice instead of re-insertion", B+": _move_to_front, _evict_lru_for")], ["held iterators and references"])

prop("C23", "Keys and values are copied, moved or built exactly as asked",
 "insert copies the given key and value and never modifies the arguments; emplace constructs the key and value from exactly the forwarded arguments (moving from rvalues, copying from lvalues, also for several arguments per object), and only rvalue ranges are moved from. Re-inserting or re-emplacing an existing key stores the new value under the originally stored key object, and the stored objects always equal those the arguments describe.",
 ["inputs", "histories"], "every argument value, value category and prior state (key new or present, cache full or not, capacity 0)",
 "The move-awareness tests use empty caches and one key, so the update and eviction paths are not covered.",
 [B, I+"internal/information.hpp", I+"internal/utility.hpp"], [("insert, emplace", B), ("construct_from_tuple, Information tuple constructor", I+"internal/utility.hpp, "+I+"internal/information.hpp")], ["stored objects", "argument objects after the call"])

prop("C24", "Accessing the last accessed key again needs no hash lookup",
 "After a successful contains, find, lookup or operator[] of a key, or after inserting or emplacing it, the next contains, lookup or operator[] of the same key does not invoke the hash function, on const and non-const caches alike, also if in between other keys were erased, evicted, cleared or asked for in vain, the cache was iterated over or its capacity changed, while the entry stayed. Every find, contains or lookup invokes it at most once for the key asked for.",
 ["histories", "inputs"], "every prior history, every pair of access functions",
 "Tests cannot see it: the answers are the same with and without the shortcut; the only related test counts hash calls on an empty cache and fails on this platform.",
 [B, C, T, I+"internal/last-accessed.hpp"], [("last accessed shortcut", B+": contains, lookup; "+C+", "+T+": find")], ["calls of a user-supplied hash function"])

prop("C25", "Entries and insertion results are faithful views",
 "Dereferencing any iterator, by operator* or operator->, gives an entry whose first/key() and second/value() are the stored key and value objects themselves: what is written through a non-const entry is stored, in that entry only. An entry compares equal to a pair or another entry, in either order, exactly when both key and value are equal, and converts to a pair of references to the stored objects. The members of an insertion result agree: first, was_inserted() and its conversion to bool are the same flag, iterator() and second the same iterator, to the stored key and value.",
 ["inputs", "histories"], "every stored key and value, every iterator kind and access form, comparison with every pair or entry",
 "Tests read keys and values of entries through iterators; they never write through an entry, compare entries with other entries or with pairs that differ in one member, or check identity with the stored objects.",
 [I+"entry.hpp", I+"insertion-result.hpp", I+"internal/base-iterator.hpp", I+"internal/base-ordered-iterator.hpp", I+"internal/base-unordered-iterator.hpp"], [("Entry and its operators", I+"entry.hpp"), ("InsertionResult", I+"insertion-result.hpp"), ("operator*, operator->", I+"internal/base-*-iterator.hpp")], ["entries", "addresses of keys and values", "stored values", "insertion results"])

prop("C26", "The cost of an operation does not grow with the number of entries",
 "With a hash function that spreads the keys, the work done by a single lookup, insertion or emplacement (also with eviction, once the table need not grow), erasure by key or iterator, iterator step or dereference, front, back, size or capacity query, swap or move is bounded by a constant, however many entries the cache holds; and operations on all entries (filling, iterating, copying, comparing, clearing, shrinking, clearing expired entries) take time proportional to the number of entries.",
 ["inputs", "configurations"], "every operation at every key or place of caches of very different sizes, timed or not, monitored or not",
 "Tests use caches of a few entries, and no test observes the cost of an operation: a linear search gives the same answers.",
 [B, C, T, I+"internal/base-ordered-iterator.hpp"], [("map of iterators into the queue, queue of references to keys", B), ("splice in _move_to_front", B), ("erase by iterator", B)], ["number of instructions executed by an operation"])

prop("C27", "Caches do not influence one another",
 "Operations on one cache (lookups, insertions, erasures, capacity changes, clearing, destruction, monitoring, callbacks) change no contents, order, capacity, statistics, callbacks or last accessed key of any other cache, whatever the types, keys and order of creation of the caches, unless both were explicitly given the same statistics object; a new cache is always empty, unmonitored and without callbacks.",
 ["histories", "inputs"], "every interleaving of operations on two or more caches of equal or different types, with overlapping keys",
 "Tests use one cache at a time; state that is shared by accident (statics, shared defaults) is invisible to them.",
 [B, C, T, I+"wrap.hpp", I+"internal/callback-manager.hpp", I+"internal/statistics-mutator.hpp"], [("all state is per object", B), ("one cache per wrapped function", I+"wrap.hpp")], ["all observers of both caches after each operation"])

prop("C28", "Lookups are recorded in exactly the statistics object last given",
 "A cache records its lookups in the statistics object it was last told to use, and in no other: after monitor(pointer) that very object is what stats() and shared_stats() refer to, after monitor() or monitor(keys...) it is a new one that monitors exactly the given keys (whatever the key type), and after stop_monitoring nothing is recorded, is_monitoring is false, stats() throws NotMonitoring and shared_stats() is null. The cache holds a reference to exactly the object it uses; no other operation (insertion, erasure, clear, capacity change, range assignment) starts, stops or replaces it.",
 ["histories", "inputs"], "every sequence of monitor, stop_monitoring and other operations on several caches and statistics objects",
 "Tests register one statistics object once per cache; replacing, stopping, re-registering and sharing in sequence, and string keys other than a single one, are not exercised.",
 [B, I+"statistics.hpp", I+"internal/statistics-mutator.hpp"], [("monitor, stop_monitoring, stats, shared_stats", B), ("Statistics constructors", I+"statistics.hpp")], ["statistics objects", "stats, shared_stats, is_monitoring", "use counts"])

prop("C29", "The guarantees hold for every key and value type",
 "Insertion, emplacement, lookup, assignment, erasure, eviction, iteration, copying, moving, comparison and expiry behave the same whatever copyable key and value types are used: 64-bit numbers, one-bit and one-byte types, enumerations, pointers, pairs and tuples, strings, containers, smart pointers, types without default constructor or with explicit constructors and owned memory, large types, and caches themselves. No object is narrowed, sliced, truncated, left moved-from or only partly copied.",
 ["inputs", "configurations", "histories"], "every value of each kind of type, every short history",
 "Tests use int keys almost everywhere; conversions through int, size_t or bool, and objects stored by address, are invisible with those.",
 [B, C, T, I+"internal/information.hpp", I+"internal/timed-information.hpp", I+"internal/optional.hpp", I+"internal/last-accessed.hpp", I+"internal/hash.hpp"], [("templates over Key and Value", B), ("hash of tuples", I+"internal/hash.hpp")], ["stored objects read back through every accessor"])

prop("C30", "Misuse throws the documented exception and changes nothing",
 "A request that cannot be served throws exactly the LRU::Error documented for it: front() or back() of an empty cache EmptyCache, lookup and operator[] of an absent key KeyNotFound (of an expired one KeyExpired or KeyNotFound), checked access through, throw_if_invalid of and erasing with an end iterator InvalidIterator, checked access to an expired entry KeyExpired, converting an end iterator InvalidIteratorConversion, stats() without monitoring NotMonitoring, counts of a key that is not monitored UnmonitoredKey; a request that can be served throws none of them, and each of them is a std::runtime_error. Apart from the miss that a failed lookup records, the failed request leaves entries, values, order, capacity, statistics and callbacks as they were, and later operations do what they would have done without it.",
 ["histories", "inputs"], "every prior history, every key and iterator position, every form of request, monitored or not, timed or not",
 "Tests provoke each exception once on one fixed cache; they do not look at the state afterwards, at const forms, at expired keys reached through different paths, or at the base class.",
 [B, C, T, I+"error.hpp", I+"statistics.hpp", I+"internal/base-iterator.hpp", I+"internal/base-ordered-iterator.hpp", I+"internal/base-unordered-iterator.hpp"],
 [("lookup, throw_if_invalid, erase(iterator), stats", B), ("KeyExpired", T), ("_throw_if_at_invalid", I+"internal/base-ordered-iterator.hpp"), ("error types", I+"error.hpp")],
 ["type of the exception", "iteration, statistics and callbacks afterwards"])

prop("C31", "A cache keeps one object per entry and destroys the rest at once",
 "After every operation exactly one key object and one value object exist per stored entry: evicted, erased, cleared, shrunk away, expired-and-cleared and replaced keys and values have been destroyed when the operation returns, none is stored twice, and none that is still stored was destroyed, whether or not iterators, entries or insertion results that once referred to it still exist. Monitoring keeps one key object per monitored key and nothing else, copies, moves and swaps leave exactly the objects of the resulting entries, and destroying caches and wrapped functions destroys everything they kept.",
 ["histories", "inputs"], "every history, capacity and key pattern, several caches, timed or not",
 "Tests store ints and strings and never count objects: a value kept alive in a spare node, a shortcut or a stale iterator, or stored twice, is invisible to them.",
 [B, C, T, I+"internal/last-accessed.hpp", I+"internal/information.hpp", I+"wrap.hpp"],
 [("_erase, _evict_lru_for, clear", B), ("last accessed entry is referred to, not stored", I+"internal/last-accessed.hpp"), ("monitored keys", I+"statistics.hpp")],
 ["number of live key and value objects"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
