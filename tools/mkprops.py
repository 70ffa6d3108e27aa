#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for (a,b,c) in state],
                               mechanism=[dict(name=a, where=b) for (a,b) in mech],
                               observe_at=observe, hook_needed=None)))
LIST='pcollections/_list.py'; SET='pcollections/_set.py'; DICT='pcollections/_dict.py'; LAZY='pcollections/_lazy.py'
ASEQ='pcollections/abc/_seq.py'; ASET='pcollections/abc/_set.py'; AMAP='pcollections/abc/_map.py'; UTIL='pcollections/util/_core.py'; CORE='pcollections/abc/_core.py'

prop('C01', 'Persistent list edits give what list gives',
 "Every editing method of a persistent list (constructor, set, append, prepend, insert, delete, drop, pop, remove, extend, +, *, reverse, sort, clear) returns a list of the same kind whose contents are exactly what the corresponding operation leaves in a built-in list, for every integer index including negative and out-of-range ones. It raises IndexError or ValueError exactly when the built-in list would (drop instead returns the list unchanged), and insert clamps its index as list.insert does. This holds whatever sequence of edits produced the list.",
 ['inputs','histories'], 'every list (any contents, any edit history), every index in the integers, every operand',
 'The random test draws valid non-negative indices for six operations from one seed; edits depend on where the internal window lies (below, across or above zero) and on which half the index falls in, so the cases are (history x index) pairs a sample does not cover.',
 [LIST, ASEQ], [('plist.set/delete/insert window arithmetic', LIST), ('PersistentSequence mixins', ASEQ)],
 ['plist methods, list(p), len(p), p[i]'],
 [('_start','key of the first element in the trie; moves below zero on prepend',LIST),('_phamt','trie int -> element',LIST)])
prop('C02', 'Sequence reads (index, slice, iterate, search) agree with list',
 "For persistent and transient lists alike, indexing with any integer, slicing with any start/stop/step (including zero, negative, omitted and out-of-range ones), len, iteration, reversed, in, count and index(value, start, stop) return the same elements, in the same order, as a built-in list with the same contents. They raise IndexError or ValueError exactly when the built-in list does. Slices are lists of the same kind.",
 ['inputs','histories'], 'every list contents, window position, index and slice triple',
 'Tests read three indices and one slice of one list of ten; slice bounds are an unbounded triple, and iteration order depends on the sign of the internal window.',
 [LIST, ASEQ], [('plist/tlist.__getitem__ and __iter__', LIST), ('index/count', ASEQ)], ['p[i], p[i:j:k], list(p), reversed(p), p.index, p.count'])
prop('C03', 'Transient lists behave like list under in-place edits',
 "A transient list, however it was created and whatever edits came before, holds after each in-place operation (item assignment, del, append, prepend, insert, pop, remove, extend, +=, *=, sort, reverse, clear) exactly the elements a built-in list would hold, and returns the same result. +, * and copy give a new transient list with the right contents and leave their operands alone; a list may be added to, or extended with, itself. It raises IndexError or ValueError exactly when list would.",
 ['inputs','histories'], 'every transient list state, operation and integer index or operand, including the list itself',
 'The random test covers one seeded path of valid indices; negative indices, both shift directions, aliasing operands and the inherited methods are not exercised.',
 [LIST, ASEQ], [('tlist in-place shifting', LIST), ('TransientSequence mixins', ASEQ)], ['tlist methods, list(t), t.persistent()'])
prop('C04', 'Persistent sets have set semantics under any hash collisions',
 "Adding, discarding, removing, popping and their batch forms on a persistent set give a persistent set with exactly the members a built-in set would have, whatever the members' hash values are, including members that are unequal but share a hash and members that do not equal themselves (NaN). Membership, length and iteration (each member exactly once) agree with those members after any history. remove raises KeyError exactly when the element is absent, and pop exactly when the set is empty.",
 ['inputs','histories'], 'every set of members, every pattern of equal hashes, every history of additions and removals',
 'Tests use small non-negative ints, which never collide, so the collision chains are never built; chain repair depends on which member of the chain is removed.',
 [SET, ASET], [('hash bucket chains in _idx/_els', SET)], ['pset methods, in, len, iter'],
 [('_idx','hash -> first entry of its chain',SET),('_els','entry -> (element, next entry)',SET)])
prop('C05', 'Transient sets behave like set under any hash collisions',
 "After any sequence of add, discard, remove, pop, update and batch operations, a transient set has exactly the members, length and iteration a built-in set would have, for any pattern of colliding hashes. It raises KeyError exactly when set would. The operations may be given the set itself as their argument.",
 ['inputs','histories'], 'every transient set state, element hash pattern and operation sequence',
 'No test has two elements with the same hash, and each operation is seen only along one seeded path.',
 [SET, ASET], [('tset.add/discard chain edits in place', SET)], ['tset methods, in, len, iter, persistent()'])
prop('C06', 'Set algebra and comparisons agree with set',
 "For persistent and transient sets, |, &, -, ^ (and reflected and in-place forms), union, intersection, difference, symmetric_difference and their updates, and ==, !=, <, <=, >, >=, isdisjoint, issubset, issuperset give the answers the built-in set gives for the same members, with any set as the other operand, and any iterable for the named methods. This includes empty operands, equal sizes and a set combined with itself. Comparing for equality with a non-set is False rather than an error; every other operator refuses a non-set with TypeError, as set does.",
 ['inputs'], 'every pair of sets (any overlap, any hash pattern, either operand kind)',
 'Tests use four fixed triples; the size shortcuts and empty/equal-size/self operands are combinations no test visits.',
 [ASET, UTIL, SET], [('setcmp', UTIL), ('PersistentSet/TransientSet operators', ASET)], ['operators and named methods'])
prop('C07', 'Persistent dicts have dict semantics under any hash collisions',
 "Building and editing a persistent dict (set, drop, delete, pop, popitem, setdefault, update, setall, dropall, deleteall, clear) gives a mapping with exactly the items a built-in dict would have, whatever the keys' hashes are, including unequal keys that share a hash, and values that are None or falsy. Lookup, get, in, len and iteration in insertion order agree with those items after any history. KeyError is raised exactly when dict would raise it (drop and dropall ignore missing keys).",
 ['inputs','histories'], 'every set of keys and values, every pattern of equal hashes, every edit history',
 'Tests use small ints and short strings, which never collide, so no collision chain is ever built or repaired.',
 [DICT, AMAP], [('hash bucket chains in _idx/_els', DICT), ('PersistentMapping mixins', AMAP)], ['pdict methods, d[k], in, len, items()'],
 [('_idx','hash -> first entry of its chain',DICT),('_els','entry -> ((key, value), next entry)',DICT),('_top','next free entry number; gives insertion order',DICT)])
prop('C08', 'Transient dicts behave like dict under any hash collisions',
 "After any sequence of item assignment, del, pop, popitem, setdefault, update and clear, a transient dict has exactly the items, length, lookups and insertion-ordered iteration a built-in dict would have, for any pattern of colliding key hashes. It raises KeyError exactly when dict would. Replacing a value while iterating is allowed; adding or removing keys while iterating makes the next step raise RuntimeError rather than skip or repeat items.",
 ['inputs','histories'], 'every transient dict state, key hash pattern and operation sequence, including edits between two steps of an iteration',
 'No test has colliding keys or edits a transient dict while iterating it.',
 [DICT, AMAP], [('tdict.__setitem__/__delitem__/pop chain edits', DICT), ('_version', DICT)], ['tdict methods, iter(t)'])
prop('C09', 'keys, items and values views present the mapping they come from',
 "For every mapping type, keys(), items() and values() have the mapping's length and iterate its keys, pairs and values in the same order, reversed() gives the reverse, and in answers as the built-in dict views do. keys and items views combine and compare as sets. A transient dict's views reflect later changes to it.",
 ['inputs','histories'], 'every mapping contents and probe, every later edit',
 'Tests iterate keys and values of two tiny dicts and never probe values or items for membership.',
 [DICT, LAZY], [('pdict_*/tdict_* views', DICT), ('ldict/tldict views', LAZY)], ['d.keys(), d.items(), d.values()'])
prop('C10', 'Nothing ever changes a persistent collection',
 "Once a persistent list, set or dict (or lazy list or dict) exists, no later operation changes its contents, order, length or hash: not edits derived from it, not edits of transients made from it or it was made from, not bulk operations, and not operations that fail. Item and attribute assignment and deletion on it raise TypeError.",
 ['histories','inputs'], 'every persistent value and every later history of operations on it and on everything derived from it',
 'Tests look back at the original after a handful of single edits; the claim is over all later histories, including failing ones and edits on shared transients.',
 [LIST, SET, DICT, LAZY, CORE], [('copy-on-write through PHAMT/THAMT', LIST), ('Persistent.__setattr__', CORE)], ['contents before and after any history'])
prop('C11', 'Transient and persistent conversions keep contents and independence',
 "transient() and the transient constructors give a mutable copy, and persistent() and the persistent constructors a frozen copy, with exactly the source's contents, of the matching kind (lazy stays lazy). Afterwards the two are independent: edits to the transient, before or after freezing, never show up in a frozen copy taken earlier, and freezing always reflects the latest edits. copy() of a transient is an independent transient of the same kind.",
 ['histories','inputs'], 'every collection kind and every interleaving of edits, freezes and thaws',
 'Tests freeze once after one edit; stale-original and aliasing bugs need a particular order of freeze, edit and freeze.',
 [LIST, SET, DICT, LAZY, ASEQ, ASET, AMAP], [('_orig reset on every mutation', LIST), ('_orig', SET), ('_orig', DICT)], ['t.persistent(), p.transient(), copy()'])
prop('C12', 'Equality is by content and equal collections have equal hashes',
 "Collections compare equal exactly when the corresponding built-in collections would (lists element by element in order, sets and dicts regardless of order or history), across persistent, transient, lazy and built-in types, and never to unrelated types. Any two hashable collections that compare equal, including frozenset and lazy versus eager ones, have equal hashes, whatever operations built them and whether or not a hash was taken before. A persistent collection's hash never changes.",
 ['inputs','histories'], 'every pair of collections and construction history, every hash function on elements',
 'Tests only check that hash returns an int; equality is tried on orderable ints only.',
 [ASEQ, ASET, AMAP, UTIL, LIST, SET, DICT, LAZY], [('__eq__/__hash__ and _hashcode caching', ASEQ), ('setcmp', UTIL)], ['==, !=, hash()'])
prop('C13', 'Lists order lexicographically, as list does',
 "<, <=, > and >= between a persistent or transient list and any list-like operand give what the built-in list gives: decided by the first position where the elements differ, else by length. Elements are compared for order only at that position, so equal elements need not be orderable. Sorting a list is stable and honours key and reverse.",
 ['inputs'], 'every pair of lists over elements with any strict weak order (ties between unequal elements included)',
 'Tests compare slices of one increasing list of ints; ties, unorderable equal elements and prefixes in both directions are not covered.',
 [UTIL, ASEQ], [('seqcmp', UTIL)], ['<, <=, >, >=, sort()'])
prop('C14', 'A lazy value is computed once and every caller gets that value',
 "However many threads call a lazy value at the same time, in whatever interleaving, its function is called with exactly the arguments given and completes successfully at most once, every successful call returns that one result, and once it has been computed the function and its arguments are never used again. If the function raises, that caller gets LazyError, nothing is cached, the lock is released, and a later or waiting call tries again. is_ready() is True exactly when the value is cached. (A function that calls its own lazy value is not covered.)",
 ['schedules','fault_sequences'], 'every interleaving of up to 3 threads at the level of shared reads and writes, with any of the computations failing',
 'Tests call lazy values from one thread and never let the function fail.',
 [LAZY], [('double-checked locking in lazy.__call__', LAZY)], ['lazy.__call__, is_ready'])
prop('C15', 'Lazy lists and dicts read as if all values were already computed',
 "Reading an llist, ldict, tllist or tldict in any way (item access, get, iteration, values, items, pop, popitem, count, index, equality, hashing, membership) gives what the eager collection of the computed values would give and never hands out an unevaluated lazy object. Edits keep the collection's kind lazy, and converting it to a non-lazy persistent collection gives the computed values. Only getlazy, as_plist, as_pdict, as_tdict and holdlazy expose lazy objects, leaving the collection itself unaffected.",
 ['inputs','histories'], 'every mixture of lazy and plain elements, every read, after any edit',
 'Tests read two-element lazy collections; the edge deletions, pop, count, hash and conversions take other code paths.',
 [LAZY, LIST, DICT, ASEQ, AMAP], [('llist/ldict/tllist/tldict overrides', LAZY)], ['all reads of lazy collections'])
prop('C16', 'Lazy items are not computed until they are asked for',
 "Building a lazy collection, taking its length, testing, iterating or looking up keys, setting, adding, inserting or deleting items, slicing, thawing, freezing, copying between lazy kinds, printing, getlazy, is_lazy, is_ready and holdlazy compute no lazy item. Reading one item computes that item and no other. ready_all computes every item, each once.",
 ['inputs','histories'], 'every mixture of lazy and plain items and every sequence of such operations',
 'Tests count computations for construction and for two item reads only.',
 [LAZY, LIST, DICT], [('lazy objects stored raw; dereferenced on read', LAZY)], ['number of times each lazy function ran'])
prop('C17', 'Copy, pickle and JSON export reproduce the collection',
 "Copying or unpickling a pickled collection of any of the library's types gives a collection of the same type, equal to the original and in the same order, and of computed values for lazy ones. copy() of a persistent collection is the collection itself. The JSON export of a list or dict is the JSON of the equal built-in list or dict.",
 ['inputs','histories'], 'every collection type, contents and edit history',
 'No test pickles, copies with the copy module, or exports anything.',
 [ASEQ, ASET, AMAP, CORE], [('__reduce__', ASEQ), ('__reduce__', ASET), ('__reduce__', AMAP), ('__json__', AMAP)], ['pickle/copy protocol value, __json__'])
prop('C18', 'Printed forms are complete when short and bounded when long',
 "str() of a collection shows every item in order when the items' text, joined with separators, is at most 60 characters, and otherwise shows a leading run of whole items followed by an ellipsis, never exceeding 60 characters between the delimiters; the general string utility obeys the same rule for any limit of at least 3. repr() always shows every item. str() of a lazy collection shows a placeholder for lazy items, and printing never computes one; lazy values, their errors and the views of dicts can always be printed.",
 ['inputs'], 'every number of items and every length of their texts, separator and limit',
 'No test looks at str or repr; the rule depends on sums of text lengths near the limit.',
 [UTIL, ASEQ, ASET, AMAP, LAZY], [('seqstr', UTIL)], ['str(), repr(), seqstr()'])
prop('C19', 'An operation that fails leaves collections as they were',
 "If a single-element operation on any collection raises (index out of range, missing key or value, bad operand type, an exception from an element's __eq__ or __hash__), every collection involved has exactly the contents it had before. If a bulk operation on a transient stops because its iterable or an element raises, the items before that point have been applied, and nothing else. Bulk operations on persistent collections have no effect when they raise.",
 ['fault_sequences','inputs'], 'every operation, every point at which an element comparison, hash or iterator raises',
 'Tests provoke a few IndexErrors and KeyErrors and never look at the collection afterwards, and no element of theirs raises.',
 [LIST, SET, DICT, ASEQ, ASET, AMAP], [('lookups precede writes', DICT), ('bulk edits on a private transient', AMAP)], ['contents after a caught exception'])
prop('C20', 'Conversions and point edits cost the same at every size',
 "Converting between persistent and transient forms, appending and prepending, setting or replacing one item, adding or removing one set member or dict key, deleting either end of a list, looking up one index, key or member, and copying touch a number of stored entries that does not grow with the size of the collection. Adding a few items in bulk costs in proportion to those items, not to the collection.",
 ['inputs'], 'every collection size up to the bound and every choice of item',
 'Tests never measure work; a correct result computed by rebuilding the collection passes them all.',
 [LIST, SET, DICT, LAZY], [('structural sharing through PHAMT/THAMT', LIST)], ['number of trie entry reads and writes per call'])
prop('C21', "The abstract base classes' inherited methods work for any implementation",
 "A class that derives from PersistentSequence, TransientSequence, PersistentSet, TransientSet, PersistentMapping or TransientMapping and implements only the methods its documentation lists as required gets, from every inherited method, what the built-in list, set or dict gives (persistent classes: as a changed copy, the original left as it was). setcmp and seqcmp report how any two sets or sequences compare as their documentation says, and refuse operands of other kinds with TypeError.",
 ['inputs'], 'every contents, index and operand, for an implementation that offers nothing but the required methods',
 'Tests only use the concrete classes, which override many of the inherited methods; those are never run.',
 [ASEQ, ASET, AMAP, CORE, UTIL], [('mixin methods', ASEQ), ('mixin methods', ASET), ('mixin methods', AMAP), ('setcmp, seqcmp', UTIL)], ['methods of a minimal subclass, setcmp(), seqcmp()'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
