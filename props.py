"""Property catalogue: source of properties.jsonl and MANIFEST.json (python3 gen.py)."""
P = []
def prop(id, title, statement, over, text, why, files, mech, claimed=True, reason=None, note=None, observe=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claimed=claimed, reason=reason, note=note, observe=observe or [], level=level))

COMMON = 'Deductive: every obligation generated from the LLVM IR of the current /repo sources is discharged by z3 (cvc5 as second back end) for all inputs and iterations; trusts clang -O0 + sroa, the VC generator in /verif/vir and the solvers. '

prop('C01', 'List and Array behave as finite sequences',
     'Every List and Array operation has exactly the effect of the same operation on a mathematical sequence: element access, search, insertion (also of an element of the list itself), replacement, removal of one element or a range, clearing, resizing and moving give the documented result and contents. An index, range or size outside of the documented bounds raises Error and leaves the container unchanged.',
     ['inputs', 'histories'], 'for every container content, length and spare capacity, every argument value and every sequence of operations',
     'The unit tests run a few fixed operation sequences on lists of ints shorter than about 20; off-by-one and growth/shrink errors depend on count, capacity and index together.',
     ['Source/Collections/List.h'], [('element moving and growth helpers', 'Source/Collections/List.h memory_management'), ('bounds checks', 'Source/Collections/List.h Get/operator[]/Insert/RemoveAt/RemoveRange/Set')],
     note='74+ contracts on Array/List operations, for an opaque element type (all element operations known only by contract) and for a trivially copyable one.')
prop('C02', 'Containers keep every element alive exactly once and never leak storage',
     'Every element stored in an Array, List or SortedList is constructed exactly once and destroyed exactly once, only constructed elements are ever read, assigned or destroyed, and every access stays inside the allocated storage. When an operation ends the container owns exactly one buffer or none, and nothing it allocated is leaked or released twice, also after an Error.',
     ['inputs', 'histories'], 'for every container state, element type, argument value and operation sequence',
     'The tests use plain values mostly and a leak check at exit; a double destruction or read of raw storage in one growth or shrink path is not observed by value comparison.',
     ['Source/Collections/List.h'], [('placement construction/destruction helpers', 'Source/Collections/List.h memory_management'), ('capacity/count bookkeeping', 'Source/Collections/List.h ReleaseUnnecessaryBuffer/InsertUninitializedItems')],
     note='Representation invariant (count <= capacity = allocated size, exactly the first count slots hold objects) proved preserved by every operation.')
prop('C03', 'SortedList stays sorted and finds exactly the elements it holds',
     'After any sequence of additions and removals the elements of a SortedList are in ascending order and are exactly the added elements that were not removed. IndexOf and Contains find an equal element whenever one exists and never report one that does not; Add returns the index of the new element and Remove removes exactly one equal element or reports false.',
     ['inputs', 'histories'], 'for every sorted content, every total preorder on elements and every argument',
     'Binary search errors show only for particular positions, duplicates or lengths; the tests use a handful of short lists.',
     ['Source/Collections/List.h'], [('binary search', 'Source/Collections/List.h SortedList::IndexOfInternal'), ('ordered insertion', 'Source/Collections/List.h SortedList::AddInternal')],
     note='Loop invariants of the binary search are inferred from templates and proved inductive; element order is an arbitrary total preorder.')
prop('C06', 'Strings have the content their construction describes',
     'A string built from text, a character, a slice (Left, Right, Sub), concatenation, insertion or removal holds exactly the characters the operation describes; Length, character access and IndexOf report that content; no operation changes the content of any other string, also when strings share storage or are views into one text. Arguments out of range raise Error and leave every string unchanged.',
     ['inputs', 'histories'], 'for every text, view, argument value and sharing pattern of the operands',
     'The tests compare a few literals; errors in start/length arithmetic of views show only for particular offsets or when operands share storage.',
     ['Source/Strings/String.h', 'Source/Strings/String.cpp'], [('slicing and replacement', 'Source/Strings/String.h SubUnsafe/ReplaceUnsafe'), ('constructors', 'Source/Strings/String.h ObjectString constructors')],
     note='All operations of ObjectString for char, char16_t and wchar_t under contract.')
prop('C07', 'String comparison is the lexicographic order of the characters',
     'The comparison operators of strings, with strings or with zero-terminated text on either side, give the lexicographic order of the two character sequences: equal exactly for the same characters, otherwise decided by the first difference, or by length when one is a prefix of the other.',
     ['inputs'], 'for every pair of texts, including views, shared and identical strings',
     'Order errors show only for prefixes, equal prefixes with particular lengths or extreme characters; tests sample a few literals.',
     ['Source/Strings/String.h'], [('three-way comparison', 'Source/Strings/String.h Compare/operator<=>')],
     note='Loop over the common prefix summarised by an inferred invariant; expected result stated via the first difference.')
prop('C08', 'Shared string storage stays readable and is released exactly once',
     'Text shared by strings stays allocated, unmodified and zero-terminated as long as one string refers to it and is released exactly once, together with its counter, when the last one goes away, also when threads copy and drop their own strings sharing one text at the same time. Every read and write of a string operation stays inside of live storage, and nothing is leaked, also after an Error.',
     ['inputs', 'histories', 'schedules'], 'for every sharing pattern, text, argument and interleaving of reference count steps',
     'A missing or doubled reference step is invisible to value comparison until memory is reused; races on the counter need a particular interleaving.',
     ['Source/Strings/String.h'], [('reference counting', 'Source/Strings/String.h Inc/Dec'), ('terminated buffer of a view', 'Source/Strings/String.h Buffer')],
     note='Ghost units per shared counter; atomic steps only; a non-atomic access of the counter fails an obligation.')
prop('C11', 'Ptr and ComPtr destroy each object exactly once, by its last owner',
     'An object managed by Ptr or ComPtr stays alive as long as one pointer refers to it and is destroyed (ComPtr: released) exactly once when the last pointer goes away, for every sequence of construction, copy, move, conversion, Cast, assignment (also from a pointer stored in the object being released), Detach and destruction, and for every interleaving of threads that copy and drop their own pointers to one object. A pointer always refers to the object it was given or is empty; a moved-from or detached pointer is empty, a failed Cast gives an empty pointer.',
     ['inputs', 'histories', 'schedules'], 'for every ownership graph, operation sequence and interleaving of reference count steps',
     'Lost or doubled references show only at the last owner or under a particular interleaving; the tests use a few single-threaded sequences.',
     ['Source/Primitives/Pointer.h'], [('reference counting', 'Source/Primitives/Pointer.h Ptr::Inc/Dec, ComPtr::Inc/Dec'), ('transfer of ownership', 'Source/Primitives/Pointer.h constructors, operator=, Cast, Detach')],
     note='Pre-states are built by the real constructors and shared with an unknown number of other owners; post-states are judged by running Obj and every destructor to the end.')
prop('C04', 'Dictionary is a sorted map with unique keys',
     'A Dictionary holds each key once, keys in ascending order, each with the value last given to it: Set adds the key or replaces its value, Add adds an absent key and raises Error for a present one without changing anything, Remove removes exactly that key and reports whether it was present, Get and operator[] return the value of a present key and raise Error for an absent one, Keys and Values list the entries in key order at the same positions. Moving transfers all entries; nothing is leaked.',
     ['inputs', 'histories'], 'for every content, key order, argument (also keys and values stored in the dictionary itself) and operation sequence',
     'Keys and values live in two lists kept in step by position; a slip shows only for particular insertion positions or after errors, the tests use a few small int maps.',
     ['Source/Collections/Dictionary.h', 'Source/Collections/List.h'], [('keys and values kept in step', 'Source/Collections/Dictionary.h Dictionary::SetInternal/AddInternal/Remove'), ('lookup', 'Source/Collections/List.h SortedList::IndexOf')],
     note='Every Dictionary operation under contract over opaque key and value types; the SortedList/List contracts it uses are discharged against their bodies in the same run.')
prop('C05', 'Group is a multimap that never holds a key without values',
     'A Group holds for each key the values added to it and not removed, in order of addition, and never a key without values: Add appends, Remove(key, value) removes the first equal value and the key together with its last value and reports whether it removed something, Remove(key) removes all values of the key, Contains, Get, operator[], GetByIndex, Keys and Count report exactly that content, Get of an absent key and GetByIndex out of range raise Error. No other key is affected and every value list is released exactly once.',
     ['inputs', 'histories'], 'for every content, key order, argument and operation sequence',
     'The value lists are separately allocated and kept in step with the keys by position; a leak or stale entry shows only for particular keys, positions or the last value of a key.',
     ['Source/Collections/Dictionary.h', 'Source/Collections/List.h'], [('keys and value lists kept in step', 'Source/Collections/Dictionary.h Group::AddInternal/Remove'), ('ownership of value lists', 'Source/Collections/Dictionary.h Group::Clear/~Group')],
     note='Value lists are abstract sequences with ownership ghosts; the List/SortedList contracts used are discharged against their bodies in the same run.')
prop('C12', 'Nullable and Variant hold exactly the value last given to them',
     'A Variant always holds exactly one live value of the type named by Index, the one last constructed or assigned; Get and TryGet give that value for its type and Error or null for every other type, Apply calls the callback exactly once with it, TryApply reports whether a callback for its type was called. A Nullable is null or holds the value last given; Value raises Error when null, null orders before every value. Copies are independent, a moved-from Nullable is null, and every held value is constructed and destroyed exactly once, as its own type, also under self assignment.',
     ['inputs', 'histories'], 'for every transition between held types or null, every value and every operation',
     'The tests cover some transitions with plain values; a missed destruction or destruction as the wrong type is invisible to value comparison.',
     ['Source/Primitives/Variant.h', 'Source/Primitives/Nullable.h'], [('dispatch on the index', 'Source/Primitives/Variant.h VariantElementPack'), ('lifetime of the value', 'Source/Primitives/Nullable.h operator=/Reset')],
     note='All transitions between three element types (two opaque, one plain) and null under contract; dynamic type of every object is ghost state.')
prop('C13', 'Pair and Tuple keep components apart and order lexicographically',
     'A Pair or Tuple holds the components it was built, copied, moved, converted or assigned from, each at its own position; get and structured bindings give exactly that component; two are equal exactly when every component is equal, and are ordered by the first component that differs. A Tuple of references refers to the objects it was given.',
     ['inputs'], 'for every component value, every order of the component types and mixed component types',
     'Order errors show only when earlier components are equal; component mix-ups only when values differ.',
     ['Source/Primitives/Tuple.h', 'Source/Collections/Pair.h'], [('comparison', 'Source/Primitives/Tuple.h TupleBase::Compare, Source/Collections/Pair.h operator<=>'), ('component access', 'Source/Primitives/Tuple.h get')],
     note='Pair<E,F>, Pair<E,long>, Tuple<E,F,long> with opaque components and conversions under contract.')
prop('C14', 'Func and Event call exactly the functions given, once per call',
     'Calling a Func calls exactly the function, member function or function object it was built from, once, with the given arguments, and returns its result; copies, conversions and assignments call the same one; a Func is empty exactly when built from nothing or from an empty Func, and copies compare equal while independently built ones do not. Calling an Event calls every attached handler exactly once, each with the given arguments, also when they are rvalues; Add attaches a new handler, Remove detaches exactly that handler, IsAttached tells which. Every stored function object is destroyed exactly once.',
     ['inputs', 'histories'], 'for every kind of callable, argument, number of handlers and operation sequence in which handlers do not change the event while it is being called',
     'The tests call a few lambdas with ints by value; mixing up the callable, moving an argument away between handlers or losing ownership needs several handlers or particular conversions.',
     ['Source/Primitives/Function.h', 'Source/Primitives/Event.h'], [('invokers', 'Source/Primitives/Function.h internal_invokers'), ('handler list', 'Source/Primitives/Event.h Event::Add/Remove/operator()')],
     note='Callables are opaque functions known by contract; the handler list of an Event has an unknown length; SortedList/List operations used by Event appear by the contracts discharged for C01/C03.')
prop('C09', 'UTF encodings represent every code point and nothing else',
     'Encoding a code point to UTF-8, UTF-16, UTF-16BE or wide units gives exactly the units of the documented tables, and a value without an encoding (surrogate, too large) is refused. Decoding accepts exactly the sequences that encoding produces: it reports the code point and the number of units of the first character, and refuses truncated, overlong, surrogate and otherwise malformed sequences. Decoding reads no unit beyond the given length.',
     ['inputs'], 'for every 32-bit value and every sequence of units of every length',
     'The tests convert a few sample texts; wrong masks, shifts or bounds show only for particular code points, and malformed input is not tested.',
     ['Source/Strings/Conversion.cpp'], [('encoding', 'Source/Strings/Conversion.cpp UtfConversion<T>::From32'), ('decoding', 'Source/Strings/Conversion.cpp UtfConversion<T>::To32')],
     note='Bit-vector proof over all 2^32 values and all unit sequences; source lengths beyond the longest sequence by one symbolic case.')
prop('C10', 'Text conversion keeps every character and maps positions faithfully',
     'Converting a text between UTF-8, UTF-16, UTF-32, wide and local strings, by string functions, buffer functions or readers, gives the encodings of exactly its characters in order up to the first malformed or unrepresentable character, then the end, and every result is zero-terminated. Buffer functions report the number of units needed, and write at most the given number of units. A reader reports for every unit read its index and the position and size of the source units it came from; at the end it gives zero ever after, with the length of the text as position.',
     ['inputs', 'histories'], 'for every text of nonzero units, every view or shared string holding it, every buffer size and every number of reads',
     'The tests convert a few short texts; errors in buffering, lookahead and position tracking need particular mixes of sequence lengths at the end of the text or of the buffer.',
     ['Source/Strings/Conversion.h', 'Source/Strings/Conversion.cpp'], [('readers', 'Source/Strings/Conversion.h UtfTo32ReaderBase/UtfFrom32ReaderBase/Utf32DirectReaderBase'), ('buffers', 'Source/Strings/Conversion.cpp _utftoutf_reader'), ('strings', 'Source/Strings/Conversion.cpp ConvertStringDirect, wtoa, atow')],
     note='Reader steps proved for every buffered state over an abstract source; readers use the To32/From32 contracts discharged by C09; wcstombs/mbstowcs assumed.')
prop('C15', 'Lazy sequence operations enumerate exactly the sequence they describe',
     'Enumerating From, Range, Select, Where, Take, Skip, Repeat, Concat, Distinct, Reverse, Pairwise, Intersect, Except, Union, Evaluate, SelectMany, GroupBy, Cast and FindType of LazyList gives exactly the documented sequence of the source sequences, in order: Next tells whether there is another element, and false ever after the last, Current is that element and Index its position. Reset starts over, Clone gives an independent enumerator at the same position, an operation never disturbs its sources or other enumerators of the same list, Evaluated is claimed only over evaluated sources, and every enumerator, list and cached element is released exactly once.',
     ['inputs', 'histories'], 'for every source sequence and length, every count, selector and predicate, and every history of Next, Reset, Clone, copies and deletions',
     'The tests run each operation once over a few small fixed lists; state lost by Clone or Reset in the middle, or at the border of two sources, is not sampled.',
     ['Source/Collections/Operation.h', 'Source/Collections/OperationSequence.h', 'Source/Collections/OperationSet.h', 'Source/Collections/OperationConcat.h', 'Source/Collections/OperationPair.h', 'Source/Collections/OperationSelect.h', 'Source/Collections/OperationWhere.h', 'Source/Collections/OperationEnumerable.h'],
     [('enumerators', 'Source/Collections/OperationSequence.h TakeEnumerator/SkipEnumerator/RepeatEnumerator/DistinctEnumerator/ReverseEnumerator'), ('operations', 'Source/Collections/Operation.h LazyList')],
     note='Sources are abstract enumerators known only by the documented contract of IEnumerator, over a sequence of any length; every enumerator method is proved from every state representing the start, an element or the end. SortedList and CopyFrom appear by contract (C02, C03, C23). GroupBy, Cast, FindType and SelectMany are proved to compose these enumerators (and Aggregate, C16) with the right functions. Chains of operations are also run by a native driver every time (bounded).')
prop('C16', 'Folds over a sequence give the value of the whole sequence',
     'Count, IsEmpty, First, Last, Max, Min, All, Any and Aggregate of LazyList give the value defined by all elements of the sequence in order; without a default they raise Error exactly on an empty sequence. CompareEnumerable gives the lexicographic order of two sequences: decided by the first difference, or by length when one is a prefix. The sequence itself is left unchanged and every enumerator created is released, also after an Error.',
     ['inputs'], 'for every sequence of every length, every function and every pair of sequences',
     'The tests fold one or two fixed lists; prefixes, first or last positions and empty sequences decide these functions.',
     ['Source/Collections/Operation.h', 'Source/Collections/OperationEnumerable.h', 'Source/Collections/OperationForEach.h'],
     [('folds', 'Source/Collections/Operation.h LazyList::Aggregate/First/Last/Count'), ('comparison', 'Source/Collections/OperationEnumerable.h CompareEnumerable'), ('range-based for', 'Source/Collections/OperationForEach.h RangeBasedForLoopIterator')],
     note='Loop invariants (value so far is the fold of the elements up to the position) proved inductive for sequences of any length; sources and functions known by contract only.')

prop('C17', 'Sorting gives the elements in order and loses none',
     'Sort and SortLambda rearrange the given elements in place into ascending order of the comparer; every element stays exactly once and nothing outside of the given range is touched. With a partial order they either sort or raise Error for elements that cannot be compared, and even then no element is lost or duplicated. OrderBy, OrderByKey and OrderBySelf of LazyList give a sorted list of exactly the elements of the sequence, by comparer, by key or by their own order, and leave the sequence unchanged.',
     ['inputs'], 'for every array of every length, every total preorder with any pattern of equal elements, and every partial order',
     'The tests sort a few short arrays; the partition with pivot hopping and the gathering of equal elements fail only for particular lengths and patterns of equal elements.',
     ['Source/Collections/Operation.h'], [('partition and recursion', 'Source/Collections/Operation.h SortLambda'), ('lazy ordering', 'Source/Collections/Operation.h LazyList::OrderBy/OrderByKey/OrderBySelf')],
     note='Full functional proof of the quicksort for arrays of any length: invariants of its four loops are guessed from sampled states and proved inductive, the recursive call appears by the contract being proved (on a strictly smaller range).')
prop('C23', 'CopyFrom copies exactly the elements of the source',
     'CopyFrom from any container, string, enumerable sequence or memory range into an Array, List, SortedList, Dictionary, Group or string gives the target exactly the elements of the source: replacing its contents without append, after (for sorted targets: in addition to) what it held with append, in the order of the source where the target keeps an order. A Dictionary takes the last value given for a key. The source is left unchanged, and every enumerator and temporary made is released.',
     ['inputs'], 'for every content of target and source (different objects, or one list or array appended to itself), every length including empty and every kind of source',
     'The tests copy a few short lists between some kinds of containers; a slip in one of the four copying algorithms shows only for one pairing of kinds, with append, or for empty sources.',
     ['Source/Collections/OperationCopyFrom.h', 'Source/Collections/OperationString.h', 'Source/Collections/List.h', 'Source/Collections/Dictionary.h'],
     [('copying algorithms', 'Source/Collections/OperationCopyFrom.h CopyFromAlgorithm'), ('access by kind', 'Source/Collections/List.h and Dictionary.h randomaccess_internal::RandomAccess'), ('strings', 'Source/Collections/OperationString.h CopyFrom')],
     note='54 contracts over pairs of target and source kinds and element types; container operations appear by the contracts discharged in C01, C03-C06, enumerable sources as abstract enumerators.')
prop('C24', 'Enumerating a container visits every entry exactly once in order',
     'An enumerator of an Array, List, SortedList, Dictionary or Group visits exactly the entries of the container, in order (a Group: key by key, the values of a key in order of addition): Next tells whether there is another entry, and false ever after the last, Current refers to the entry itself, Index is its position, Reset starts over and Clone gives an independent enumerator at the same position. A range-based for loop, plain or indexed, visits every element once with its index and releases its enumerator also when left early. GroupInnerJoin visits every key of either group once, with the value lists of that key, telling keys of one group from keys of both. The containers are left unchanged.',
     ['inputs', 'histories'], 'for every content and length of the containers and every history of Next, Reset, Clone and deletion',
     'The tests enumerate a few small containers from start to end; the border between two keys of a Group, clones in the middle and steps after the end are not sampled.',
     ['Source/Collections/List.h', 'Source/Collections/Dictionary.h', 'Source/Collections/OperationForEach.h'],
     [('enumerators', 'Source/Collections/List.h ArrayBase::Enumerator, Source/Collections/Dictionary.h Dictionary::Enumerator and Group::Enumerator'), ('range-based for', 'Source/Collections/OperationForEach.h'), ('join', 'Source/Collections/Dictionary.h GroupInnerJoin')],
     note='Every enumerator method proved from every state representing the start, an entry or the end of a container of any size; value lists of a Group by contract.')
prop('C21', 'Numbers and their text round trip, letter case maps characters one by one',
     'itoa, i64toa, utoa, u64toa and their wide forms give the decimal text of any number of their type. atoi, atoi64, atou, atou64, wtoi, wtoi64, wtou, wtou64 and their _test forms accept exactly the decimal text of a number in range (32-bit range for atoi, atou, wtoi, wtou) and give that number; for every other text the _test form reports failure and the plain form gives 0. alower, aupper, wlower and wupper apply tolower, toupper, towlower or towupper to every character of a text without zero characters and leave the argument and all strings sharing its storage unchanged.',
     ['inputs'], 'for every number of the type and every text, as a whole string, a view into another string or text not owned by the string',
     'The tests convert a handful of numbers; long numbers, non-canonical text, characters outside ASCII and views are not sampled.',
     ['Source/Strings/String.cpp', 'Source/Strings/String.h'],
     [('number to text', 'Source/Strings/String.cpp itoa/i64toa/utoa/u64toa/itow/...'), ('text to number', 'Source/Strings/String.cpp atoi_test/.../wtou64_test'), ('letter case', 'Source/Strings/String.cpp alower/aupper/wlower/wupper')],
     note='Proved against ISO C contracts of sprintf, strtol and relatives and of the character functions. ftoa, atof and relatives are not part of the property.')
prop('C20', 'Global storages are initialised on first use and finalised exactly once',
     'A global storage is initialised exactly once by the first access after program start or after its finalization, and never by anything else; its accessor always gives the same storage. EnsureFinalized, FinalizeGlobalStorage and the destructor finalise a storage exactly once when it is initialised and never otherwise; FinalizeGlobalStorage reaches every storage registered so far, whatever their number and states. This also holds when the initialization uses the storage itself or the finalization finalises all storages again.',
     ['histories'], 'for every number of registered storages, every combination of their states and every sequence of accesses and finalizations in one thread',
     'The only test has one storage, initialised once before each finalization.',
     ['Source/GlobalStorage.cpp', 'Source/GlobalStorage.h'],
     [('state of one storage', 'Source/GlobalStorage.cpp EnsureInitialized/EnsureFinalized'), ('registration list', 'Source/GlobalStorage.cpp RegisterStorageDescriptor/FinalizeGlobalStorage'), ('accessor', 'Source/GlobalStorage.h macros')],
     note='The registration list has any length; resource functions of the user known only by contract.')
prop('C18', 'DateTime keeps instants, calendar fields and zone conversions consistent',
     'A DateTime made by FromOSInternal or LocalTime carries the given or current instant, to the millisecond, together with exactly the local calendar date, time of day, milliseconds and day of week of that instant; one made by FromDateTime carries the given fields, the day of week of that date and the instant at which the local clock shows them. UtcTime and ToUtcTime give the calendar fields of the instant in UTC, ToLocalTime turns them back, both keep the milliseconds, also while daylight saving time is in force. Forward and Backward move the instant by exactly the given number of milliseconds and give the calendar fields of the new instant. All comparison operators order by instant. No operation changes its operands. An implementation given to InjectDateTimeImpl answers all of these until it is taken away.',
     ['inputs'], 'for every instant from 1970 on, every local time zone including daylight saving, every clock reading that exists in the local zone (ToLocalTime: where the offset of the zone does not change within three days)',
     'The tests run in one time zone (usually UTC) with a few dates and cannot reach daylight saving, carries over month or year ends or odd millisecond values.',
     ['Source/Primitives/DateTime.cpp', 'Source/Primitives/DateTime.h', 'Source/Primitives/DateTime.Linux.cpp'],
     [('conversion of instants', 'Source/Primitives/DateTime.Linux.cpp LinuxDateTimeImpl'), ('value type and comparisons', 'Source/Primitives/DateTime.h DateTime')],
     note='Proved against POSIX contracts of localtime, gmtime, mktime and gettimeofday, over an uninterpreted calendar and zone.')

prop('C19', 'PartialOrderingProcessor groups cyclic items and orders groups by dependency',
     'After one of the InitWith functions the nodes are exactly the given items (or sub classes of items) and the ins and outs of every node are exactly the nodes it depends on and the nodes that depend on it. After Sort every node is in exactly one component, the components list all nodes and Node::component is the position of that component, two nodes are in one component exactly when each depends on the other directly or indirectly, and a node that depends on another is never in an earlier component. Dependencies on unknown items, initialising again and sorting again raise Error (a processor without items excepted).',
     ['inputs'], 'for every number of distinct items and every dependency relation, cyclic or not, self dependencies included (element counts below 2^40)',
     'Every relation over every number of items is a different input; the tests sort a handful of graphs with at most a dozen nodes.',
     ['Source/Collections/PartialOrdering.cpp', 'Source/Collections/PartialOrdering.h'],
     [('sorting', 'Source/Collections/PartialOrdering.cpp PartialOrderingProcessor::Sort, VisitUnvisitedNode, AssignUnassignedNode'), ('initialisation', 'Source/Collections/PartialOrdering.h InitWithGroup, InitWithFunc, InitWithSubClass; PartialOrdering.cpp InitNodes')],
     note='Group and List operations are used by the contracts proved under C01 and C04; two pigeonhole facts about finite sets are trusted. InitWithSubClass is decided by the native driver only (bounded).')
prop('C22', 'ByteObjectMap maps every byte; PushOnlyAllocator objects are stable and distinct',
     'ByteObjectMap::Get gives for each of the 256 keys the pointer last given to Set for that key, or null when there is none; Set changes no other key and no other map that uses the same allocator. PushOnlyAllocator::Create gives an object that overlaps no object given before; Get(i) gives the i-th created object as long as the allocator exists, and null for an index at or beyond the number of created objects; creating more objects neither moves nor changes the earlier ones, and the destructor releases every block exactly once.',
     ['inputs', 'histories'], 'for every key, every history of Set calls on maps sharing an allocator, every positive block size and every number of objects',
     'There are 256 keys and unboundedly many histories; the test creates a few objects in one block size and sets each key once in order.',
     ['Source/Collections/List.h'], [('byte tree', 'Source/Collections/List.h bom_helper::Accessor, ByteObjectMap'), ('block allocator', 'Source/Collections/List.h PushOnlyAllocator')],
     note='Tree nodes form an abstract heap with ghost owner, level and prefix; allocator blocks are separated by gaps. Elements with constructors are covered by the native driver only (bounded).')
prop('C25', 'A test run reports failure exactly when something failed, and runs everything',
     'RunAndDisposeTests runs every registered test file exactly once, in order of registration (with /F options: exactly the files whose path equals the given text or ends with it right after a slash or backslash), and returns 0 exactly when no run file failed; wrong options are never reported as success. When failures are suppressed, a failed TEST_ASSERT, TEST_ERROR or TEST_EXCEPTION, an assertion outside of a case, a category or case inside a case and every exception that leaves a body mark the body and all enclosing cases, categories and the file as failed, end that body only, and everything after it still runs; a body without failure marks nothing. TEST_ERROR and TEST_EXCEPTION pass exactly when the statement throws the expected type, also a derived one. The reported numbers of passed and executed files and cases are exact. When failures are not suppressed, exceptions reach the caller.',
     ['inputs', 'histories'], 'for every number of registered files, every nesting of categories and cases and every way their bodies end',
     'The test suite runs on this framework itself: a failure that is lost, miscounted or stops the run looks like success.',
     ['Source/UnitTest/UnitTest.cpp', 'Source/UnitTest/UnitTest.h'],
     [('contexts and failures', 'Source/UnitTest/UnitTest.cpp RecordFailure, SuppressCppFailure, RunCategoryOrCase, EnsureLegalToAssert'), ('running files', 'Source/UnitTest/UnitTest.cpp RegisterTestFile, RunAndDisposeTests'), ('assertions', 'Source/UnitTest/UnitTest.h TEST_ASSERT, TEST_ERROR, TEST_EXCEPTION')],
     note='Enclosing contexts form a chain of any depth, registered files a list of any length; bodies are opaque. Option parsing, /F selection and the printed totals are decided by the native driver only (bounded).')
