#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as a script so the text stays readable."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
A="include/array.hpp"; B="include/binary_word.hpp"; C="include/container.hpp"; L="include/lru_cache.hpp"; S="include/stlio.hpp"; H="include/handle.hpp"

p("C01","Array construction and access deliver exactly the requested elements",
 "Every way of building an Array (size, size and value, initializer list, size and generator, iterator range, implicit or explicit conversion from an Array of another type, list or array plus a parameter, copy) gives an array whose size and elements are exactly the requested ones in order, with value-initialised elements when only a size is given. size(), empty(), operator[], at(), front(), back() and begin()/end() all agree on that content. at(i) throws std::out_of_range exactly when i is not less than the size.",
 ["inputs"],"all sizes, element values and indices",
 "test_array builds two-element arrays and only prints or discards them; no element or bound is ever asserted, for any size.",
 [A],[("constructors and fill/generate helpers",A+":Array"),("bounds test in at()",A+":Array::at")],
 [("size and storage","number of elements and where they live",A+":Array")],["size()","operator[]","at()","iteration"])
p("C02","Array copy, move, assignment, swap and equality have value semantics",
 "After a copy construction or copy assignment the target compares equal to the source, the source is unchanged, and later changes to either are never visible in the other, whatever the two sizes were and also under self-assignment. Move construction and move assignment give the target the source's former content and leave a moved-from source empty (self-move leaves it unchanged), and swap exchanges the two contents. a==b is true exactly when sizes and all corresponding elements are equal, and a!=b is its negation.",
 ["inputs","histories"],"all pairs of array contents and sizes, with the element that differs at any position",
 "No existing test assigns, moves, swaps or compares two arrays.",
 [A],[("copy/move constructors and assignment",A+":Array::operator="),("operator==",A+":Array::operator==")],(),["operator[]","operator==","size()"])
p("C03","Array resize, reallocate, fill and assign produce the specified content",
 "resize(n) keeps the first min(n, old size) elements and value-initialises any others; resize(n,t) sets the others to t instead, also when t is a reference to an element of the same array. reallocate(n) to a different size yields n value-initialised elements and to the same size changes nothing. fill(x), fill(iterator) and assign(first,last) set every element to the given value or sequence, assign also setting the size.",
 ["inputs"],"all old sizes, new sizes, contents and fill values",
 "None of these operations is called by any test.",
 [A],[("resize/reallocate/fill/assign",A+":Array")],(),["size()","operator[]"])
p("C04","Array never leaks, double-destroys or touches memory it does not own",
 "Over any sequence of Array operations that do not throw (construction, copy, move, assignment, self-assignment, swap, resize, reallocate, fill, assign, destruction), every element object is destroyed exactly once, nothing is read or written outside live elements, and when the arrays are gone all element objects and all storage have been released.",
 ["histories","inputs"],"all operation sequences up to the stated length, sizes and element values",
 "The tests use trivial elements in one construction each; leaks and double destruction are invisible to them.",
 [A],[("_destroy_elements and storage release",A+":Array"),("ownership transfer on move",A+":Array::operator=(Array&&)")],(),["constructor/destructor counts of the element type","heap blocks outstanding"])
p("C05","Impossible Array sizes are refused, never silently truncated",
 "Asking an Array for n elements (by any constructor taking a size, resize or reallocate) either gives n usable elements or throws; in particular, when n times the element size is not representable, an exception is thrown and no element is written.",
 ["inputs"],"every 64-bit n and several element sizes",
 "Only sizes up to two are ever used by the tests; the overflow needs n near 2^64/sizeof(T).",
 [A],[("uninitialized_new",A+":Array::uninitialized_new")],(),["exception or size()","writes outside the block"])
p("C06","SharedArray shares elements and releases them with the last owner",
 "Copies and assigned SharedArrays of the same origin see each other's writes and independent ones do not; size and elements are those given at construction. Over any history of construction, copy, assignment (including to itself or to an alias) and destruction, elements stay valid while an owner exists, and when the last owner goes everything allocated is released exactly once.",
 ["histories","inputs"],"all histories of construct/copy/assign/write/destroy over a few handles, all element values",
 "SharedArray is not exercised by any test.",
 [A],[("reference count maintenance",A+":SharedArray")],[("_count","number of owners",A+":SharedArray")],["operator[]","size()","heap blocks outstanding"])
p("C07","complement lists exactly the missing indices in order",
 "For every nmax and every strictly increasing array of indices below nmax, complement(nmax, vars) returns the strictly increasing array of exactly those indices below nmax that are not in vars.",
 ["inputs"],"all nmax and all index subsets up to the bound",
 "complement is not called by any test.",
 [A],[("merge loop",A+":complement")],(),["returned array"])
p("C08","BinaryWord ordering and prefix/subword relations are exact",
 "operator< on binary words is the lexicographic order with a proper prefix preceding its extensions, and so a strict total order consistent with ==. u.is_prefix(w) holds exactly when w starts with u, and u.is_subword(w) exactly when u occurs contiguously somewhere in w; the empty word is a prefix and a subword of every word.",
 ["inputs"],"all pairs and triples of words up to the stated lengths",
 "binary_word.hpp is not included by any test.",
 [B],[("operator<",B+":BinaryWord::operator<"),("is_prefix, is_subword",B+":BinaryWord")],(),["returned booleans"])
p("C09","BinaryWord editing changes exactly the intended bits",
 "append(bit) and append(word) add exactly those bits at the end (also when a word is appended to itself), erase_prefix(k) removes exactly the first min(k,size) bits and nothing for k<=0, set_back(x) changes only the last bit, and bytes() is the size divided by 8 rounded up. All other bits keep their values.",
 ["inputs"],"all words up to the stated length, all k over the whole int range, all bits",
 "binary_word.hpp is not included by any test.",
 [B],[("append, erase_prefix, set_back, bytes",B+":BinaryWord")],(),["size()","operator[]"])
p("C10","BinaryWord text input and output round-trip and respect the stream",
 "Reading back the text written for a word (as 0/1 digits, or e when empty) gives the same word, the bracketed form [0,1,...] and the digit form of the same bits read as the same word, and a construction from text without any leading digits gives the empty word. Extracting a digit-form word consumes exactly its digits, so following text is still readable, and a successful extraction leaves the stream not failed even when the word ends the input. Writing a word leaves the stream's formatting flags as they were.",
 ["inputs"],"all words and all short texts over the relevant characters",
 "binary_word.hpp is not included by any test; the stream state after input is never looked at.",
 [B,S],[("operator>>, operator<<, make_binary_word",B)],(),["parsed word","stream state and position","flags"])
p("C11","Sequence parsing accepts exactly the bracketed grammar",
 "Reading a sequence from a stream succeeds exactly when the input is, up to whitespace, an opening bracket, zero or more elements separated by single separators, and a closing bracket; it then yields exactly those elements in order, replacing any previous content, and leaves the stream positioned just after the closing bracket. On every other input it throws std::ios_base::failure. It always terminates and never reads outside its buffers.",
 ["inputs"],"every input text up to the stated length (arbitrary bytes), default and custom delimiters",
 "No test reads a sequence.",
 [S],[("read_sequence",S+":read_sequence"),("operator>> for vectors",S)],(),["container content","exception","next character"])
p("C12","Container output is the exact bracketed rendering of the elements",
 "Writing an Array, SharedArray, List, vector, linked list, set, map, pair, tuple or an iterator range through the sequence writers outputs exactly the opening delimiter, the elements in order (keys and values joined by the descriptor for maps, pointees for the pointer variants) with separators strictly between them, and the closing delimiter; an empty container gives just the two delimiters.",
 ["inputs"],"all sizes up to the bound, all element values and all delimiter characters",
 "test_array prints arrays of size 0 and 2 without checking the text; the other writers are not run.",
 [S,C],[("write_sequence, write_pointer_sequence, write_map_sequence, ...",S),("operator<< overloads",C)],(),["bytes written to the stream"])
p("C13","List operations concatenate and map in order",
 "append, concatenate and catenate (and append on linked lists) yield the elements of the first operand followed by those of the second, leaving other operands unchanged, also when a list is appended to itself or an element of the list is appended. apply and elementwise return the results of the function on each element (or pair of elements) in order, calling it exactly once per element. Conversion between lists keeps length and order.",
 ["inputs"],"all list contents and sizes up to the bound, including aliased operands",
 "The tests never append to, concatenate or map a list.",
 [C],[("List::append/concatenate, catenate, apply, elementwise",C)],(),["resulting lists","number of calls"])
p("C14","In-place Set updates equal the mathematical operations",
 "adjoin makes the set the union, remove (element, set or list) the difference and restrict the intersection with the argument, for the member functions and for the free in-place functions alike, also when the argument is the same set. The argument is not changed, and the updated set is returned by reference.",
 ["inputs"],"all pairs of sets up to the bound over arbitrary element values, including aliasing",
 "The tests only construct sets; no set operation is asserted.",
 [C],[("Set::adjoin/remove/restrict and free remove/restrict",C)],(),["membership and size afterwards"])
p("C15","Set predicates and set-valued functions equal the mathematical ones",
 "contains, subset (the first set, or the object, is included in the second) and disjoint are true exactly when the mathematical relation holds, in member and free form, for set and list arguments. join, intersection and difference return exactly the union, intersection and difference without changing their operands, and applying a function to a set yields exactly the set of its values.",
 ["inputs"],"all pairs of sets up to the bound over arbitrary element values",
 "None of these functions is called by a test.",
 [C],[("Set predicates, join, intersection, difference, apply",C)],(),["returned values"])
p("C16","Map lookup and insertion keep a faithful association",
 "After any sequence of insertions, indexed writes and key removals a Map holds exactly the pairs of the reference association in which inserting an existing key keeps the old value and an indexed write replaces it. get, value and const operator[] return the associated value or throw std::runtime_error exactly when the key is absent, without adding it; has_key tells which. The free insert returns a reference to the value then stored under the key.",
 ["histories","inputs"],"all sequences up to the bound with arbitrary keys and values",
 "test_container looks up two constant keys in one constant map.",
 [C],[("Map::get/value/operator[]/insert/has_key",C),("free insert",C)],(),["lookup results","exceptions","size()"])
p("C17","Map combination and projection keep exactly the right entries",
 "adjoin and join contain every key of either map, the first map's value winning on common keys; restrict_keys keeps exactly the entries whose key is in the given set and remove_keys exactly those whose key is not. keys() is the set of keys, values() lists the values in key order, and converting a Map to another value type converts each value under its key. Operands other than the updated map are unchanged.",
 ["inputs"],"all maps and key sets up to the bound with arbitrary keys and values",
 "test_container restricts one constant map by one constant key set and checks two keys.",
 [C],[("Map::adjoin/remove_keys/keys/values, join, restrict_keys, converting constructor",C)],(),["entries of the results"])
p("C18","Duplicate detection and container conversions are exact",
 "unique_elements is true exactly when no two elements of the list are equal, and duplicate_elements is exactly the set of values that occur at least twice. make_array, make_list and make_set preserve the elements (and the order, where the target is a sequence) of a single value, vector, array or set.",
 ["inputs"],"all lists up to the bound over arbitrary element values",
 "Only make_list of one constant three-element set is tested.",
 [C],[("unique_elements, duplicate_elements, make_array, make_list, make_set",C)],(),["returned values"])
p("C19","LRUCache never exceeds its capacity and evicts the least recently used",
 "Over any history of successful put and get calls, the cache holds exactly the most recently used labels (a put or a get uses its label; age() and has_label() do not), at most maximum_size() of them: a put into a full cache removes exactly the least recently used label and no other. current_size() is the number of labels held, and construction with size 0 throws.",
 ["histories"],"all histories of operations up to the stated length, over all label choices and capacities up to the bound",
 "The tests run six fixed histories with capacity at most 4, and never evict after a get.",
 [L],[("age bookkeeping in get and put",L+":LRUCache::put"),("eviction",L+":LRUCache::put")],[("age","number of labels used more recently",L)],["has_label()","current_size()","maximum_size()"])
p("C20","LRUCache returns the stored value and exact ages",
 "Whenever a label is held, get returns the value given in the put that stored it (also when that value was passed as a reference obtained from the cache itself), and age is the number of held labels used more recently, so the ages are exactly 0,1,...,size-1.",
 ["histories","inputs"],"all histories up to the stated length, all values, all label choices",
 "Fixed histories check a handful of ages; values are checked once.",
 [L],[("age bookkeeping and value storage",L)],[("age","number of labels used more recently",L)],["get()","age()"])
p("C21","A failing LRUCache call leaves the cache unchanged",
 "get and age of an absent label and put of a present label throw std::runtime_error, and no label, value, age or size changes. A put that fails because copying the label or value throws leaves the contents, ages and size as before, so that the cache keeps working afterwards.",
 ["fault_sequences","histories"],"all histories with a failing call at any point, and a copy failure at any copy",
 "test_get_failure observes only that something is thrown; no state is looked at after a failure.",
 [L],[("precondition checks and order of updates in put",L+":LRUCache::put")],(),["state before and after the failing call"])
p("C22","Lazy computes at most once, on first use, and keeps the object",
 "The function of a Lazy is not called before the first access, and is called exactly once over any number of successful accesses, all of which return the same object with the value the function produced. A call that throws propagates and the next access tries again. Copies made after the first access share its object, the object lives while any of them does, and it is destroyed exactly once.",
 ["histories","fault_sequences"],"all sequences of access, copy, assignment and destruction up to the bound, with the function failing at any call",
 "test_lazy accesses one object once.",
 [ "include/lazy.hpp"],[("operator()","include/lazy.hpp:Lazy::operator()")],[("_obj","the computed object, if any","include/lazy.hpp")],["number of calls","address and value returned","destructions"])
p("C23","Handles have value semantics: no write shows through another handle",
 "Constructing a Handle from an object, a pointer or another handle makes it refer to an equal object of the same dynamic type. After any sequence of copies, assignments, moves and writes through the mutable accessors (reference, ref, pointer, ptr, raw_pointer, managed_pointer), a write through one handle is visible through that handle and never through another. Every object is destroyed exactly once, when the last handle to it goes.",
 ["histories"],"all sequences of copy/assign/write/read over a few handles, all written values and accessors",
 "handle.hpp is not included by any test.",
 [H],[("make_unique before mutable access",H+":Handle"),("constructors",H+":Handle")],[("_ptr","shared pointer to the object",H)],["values read through const accessors","object counts"])
p("C24","Dynamic extraction from a handle is type-exact",
 "Extracting a T from a Handle succeeds, giving the handle's own object, exactly when the object's dynamic type is T, derives from T, or is a Wrapper of T; otherwise std::bad_cast is thrown and the handle is unchanged, and dynamic_pointer_extract yields a null pointer instead. Extraction through a mutable handle must not let a write reach another handle.",
 ["inputs"],"all dynamic types in a small class hierarchy (including wrappers and unrelated types) for const and mutable handles",
 "handle.hpp is not included by any test.",
 [H],[("dynamic_handle_extract, dynamic_pointer_extract",H)],(),["returned reference or pointer","exception"])
p("C25","Iterators built on the facade obey the iterator laws",
 "For a type that supplies equality, distance, advance/increment and dereference, the random-access facade gives i+n, n steps of ++ or --, += and -= the same result, (i+n)-i equals n, the six comparisons agree with the sign of the distance, and dereference gives the element. The forward facade's ++ advances by one returning itself, and post-increment returns the old position.",
 ["inputs"],"all positions and offsets (over the whole ptrdiff_t range where no overflow occurs)",
 "iterator.hpp is not included by any test.",
 ["include/iterator.hpp"],[("IteratorFacade operators","include/iterator.hpp:IteratorFacade")],(),["positions and comparison results"])
p("C26","Range enumerates start up to stop exactly",
 "For start not greater than stop, range(start,stop) has size stop-start, its i-th value is start+i, and iterating it yields start, start+1, ..., stop-1 exactly once each in order and terminates; range(stop) is range(0,stop) and the stride is 1.",
 ["inputs"],"all 64-bit start and stop for the indexed access, all lengths up to the bound for iteration at any 64-bit start",
 "range.hpp is not included by any test.",
 ["include/range.hpp"],[("Range, RangeIterator","include/range.hpp")],(),["values produced"])
p("C27","CodedVariant dispatches to exactly the alternative of its code",
 "A CodedVariant built from an alternative or from its code reports that code, holds_alternative is true exactly for the alternative with that code, and accept calls the visitor exactly once, with the alternative whose code it holds, returning the visitor's result, for every number of alternatives from 1 to 16. A code that belongs to no alternative never reaches the visitor: the program aborts.",
 ["inputs"],"all code values and all alternative counts from 1 to 16",
 "variant.hpp is not included by any test.",
 ["include/variant.hpp","include/variant.inl.hpp"],[("coded_visit","include/variant.inl.hpp"),("CodedVariant","include/variant.hpp")],(),["visitor calls and results"])
p("C28","Randomisers stay within their bounds and advance the shared generator",
 "For min <= max, every value of an integer randomiser lies in [min,max] and every integer in it can occur, and every value of a real randomiser lies in [min,max]; two randomisers with different bounds do not affect each other's bounds. Each value consumes fresh output of the shared generator, so successive values are determined by successive generator outputs and are not forced to repeat.",
 ["inputs","histories"],"all bounds and all generator output sequences",
 "test_randomiser prints ten values for one pair of bounds and asserts nothing.",
 ["include/randomiser.hpp"],[("distribution construction and get","include/randomiser.hpp:RandomiserBase"),("engine() by reference","include/randomiser.hpp:RandomGenerator")],(),["values returned as a function of generator output"])
p("C29","Stopwatch reports the time from the last restart to the last click",
 "For every non-decreasing clock, duration() is the clock's advance from the latest restart (or construction) to the latest click after it, truncated to the stopwatch's unit, and zero when there was no click since; it is never negative and does not change until the next click or restart. elapsed_seconds() is that duration expressed in seconds.",
 ["histories","inputs"],"all clock readings and all sequences of restart, click and query up to the bound",
 "test_stopwatch sleeps once and checks a lower bound.",
 ["include/stopwatch.hpp"],[("restart, click, duration, elapsed_seconds","include/stopwatch.hpp:Stopwatch")],(),["duration()","elapsed_seconds()"])
p("C30","Assertion macros throw exactly on false and evaluate once",
 "HELPER_ASSERT, HELPER_ASSERT_MSG, HELPER_ASSERT_EQUAL, HELPER_PRECONDITION and HELPER_PRECONDITION_MSG (and the DEBUG forms when NDEBUG is not defined) throw std::runtime_error exactly when the condition is false, evaluating the condition once when it holds; the message names the failed expression and includes the supplied text. HELPER_FAIL_MSG always throws, HELPER_THROW throws the named type, and with NDEBUG the DEBUG forms do nothing. The once-only warnings print at their first execution only.",
 ["inputs"],"all operand values and both NDEBUG settings",
 "The macros are only hit through three constant failures in other tests; messages and evaluation counts are never checked.",
 ["include/macros.hpp"],[("HELPER_ASSERT and relatives","include/macros.hpp")],(),["exception and message","evaluation count","stderr text"])
p("C31","Test macros count exactly the checks that fail",
 "Each checking macro (ASSERT, CHECK, SAME, SAME_AS, EQUAL, NOT_EQUAL, EQUALS, WITHIN, LESS, UNARY/BINARY_PREDICATE, COMPARE, RESULT_COMPARE, THROWS, FAIL, TRY, EVALUATE, CALL) increases the failure count by exactly one when its condition is false or the expected exception does not occur (or an unexpected standard exception does), by zero when it holds, and writes a line starting with ERROR to the error stream in the first case only.",
 ["inputs"],"all operand values (including floating-point ones for WITHIN) and all thrown/not thrown outcomes",
 "The macros are the tests: nothing checks that they would notice a failure.",
 ["include/test.hpp"],[("checking macros","include/test.hpp")],[("HELPER_TEST_FAILURES","number of failed checks","include/test.hpp")],["HELPER_TEST_FAILURES","error stream"])
p("C32","stack_trace is harmless and reports every frame",
 "With stack traces enabled, stack_trace() writes one line per frame to the error stream and leaves that stream usable, whatever the symbol lookups return (unknown module, module without a symbol name, name that cannot be demangled), frees what it was given and nothing else. Disabled, it does nothing.",
 ["fault_sequences","inputs"],"all frame counts up to the bound and all outcomes of each symbol lookup",
 "The test build compiles the disabled variant only.",
 ["src/stack_trace.cpp","include/stack_trace.hpp"],[("stack_trace","src/stack_trace.cpp")],(),["lines written","state of std::cerr","allocations"])
p("C33","Writable objects and writers print through their own writer",
 "Streaming any object through the writable interface, a writer applied to an object, or a Writer handle outputs exactly what the dynamic type's write function outputs, on the stream given, and returns that stream so that output can continue. to_string and to_str give exactly the text that streaming the value produces, and String converts from and to text without change.",
 ["inputs"],"all texts up to the bound and all dynamic types in a small hierarchy",
 "writable.hpp and the string functions are not exercised by a test (String only as a label).",
 ["include/writable.hpp","include/string.hpp"],[("operator<<, WritableTemporary","include/writable.hpp"),("to_string","include/string.hpp")],(),["text written","stream returned"])
p("C34","Pair and tuple references assign through to the right variables",
 "Assigning to make_lpair(a,b) or make_ltuple(a,b,...) stores each component into the corresponding variable and no other, and get_first to get_fifth return a reference to exactly the corresponding component of their argument, const or not.",
 ["inputs"],"all component values, for two to five components",
 "tuple.hpp functions are not called by any test.",
 ["include/tuple.hpp"],[("make_lpair, make_ltuple, get_first...get_fifth","include/tuple.hpp")],(),["variables after assignment"])
p("C35","An Array or SharedArray operation interrupted by an exception does no damage",
 "When constructing, copying or assigning an element (or allocating storage) throws during an Array operation or a SharedArray construction, the exception propagates and every array involved can still be read within its size, assigned and destroyed; every element object constructed is destroyed exactly once and no storage is leaked. A failed copy assignment to an array of another size, resize or reallocate leaves the array's content unchanged.",
 ["fault_sequences","inputs"],"every operation, every size up to the bound and every point at which an element operation or allocation can fail",
 "No test makes an element operation fail.",
 [A],[("construction helpers and replace-on-assign",A+":Array")],(),["exception","element counts","heap blocks outstanding","content afterwards"])
p("C38","Generators are seeded from the system's entropy",
 "Every RandomGenerator takes its seed from the operating system's entropy device: for fixed clock readings, different outputs of the device give different seeds. engine() is the generator's own engine, so outputs taken through it advance the generator, and the randomisers draw from the program-wide generator.",
 ["inputs"],"all device outputs and clock readings",
 "test_randomiser prints ten values and asserts nothing about where they come from.",
 ["include/randomiser.hpp"],[("RandomGenerator constructor and engine()","include/randomiser.hpp:RandomGenerator")],(),["seed of the engine","identity and position of the engine"])
p("C39","Array elements are aligned as their type requires",
 "For every element type, including types whose alignment exceeds that of ordinary allocation (alignas), and for every size and every operation that allocates (construction, copy, conversion, resize, reallocate, assignment), each element of an Array or SharedArray lies at an address that is a multiple of the type's alignment, wherever the allocator places its blocks; and the storage is released in the form in which it was obtained.",
 ["inputs"],"all sizes, alignments and placements of the storage by the allocator",
 "The tests use element types of ordinary alignment; where a block lies is up to the allocator and a test sees one placement.",
 [A],[("allocation helpers of Array and SharedArray",A+":Array, SharedArray")],(),["addresses of elements","form of allocation and release"])
p("C40","A container, map, set or handle operation interrupted by an exception does no damage",
 "When an element's construction, copy or assignment, an allocation, or a function passed in throws during an operation of List, LinkedList, Set, Map or a copy-on-write handle, the exception propagates, nothing is leaked or destroyed twice, operands and source containers are unchanged, the set, map or linked list being updated holds everything it held before together with a part of what was to be added, an interrupted addition of one element to a list changes nothing (after an interrupted addition of several, a List can still be assigned and destroyed), and an interrupted write through a handle leaves the values of this and of every other handle as they were. All of them stay usable.",
 ["fault_sequences","inputs"],"every operation, container sizes and every point at which an element operation, an allocation or a passed function can fail",
 "No test makes an element operation or allocation fail.",
 [C,"include/handle.hpp"],[("append, concatenate, adjoin, insert, map and set operations",C+":List, LinkedList, Set, Map"),("cloning before a write","include/handle.hpp:Handle")],(),["exception","content of every operand","element counts","heap blocks outstanding"])
p("C41","Test macros that declare, construct, assign, print and clean up do what they name",
 "HELPER_TEST_DECLARE, NAMED_CONSTRUCT and ASSIGN_CONSTRUCT count one failure (with an ERROR line on the error stream) when the trial construction fails, and then construct the variable with the value asked for. HELPER_TEST_ASSIGN evaluates its expression once, assigns its value, and counts one failure when that throws, the variable keeping its value. CONSTRUCT, DEFAULT_CONSTRUCT and EXECUTE evaluate their argument once, let its exceptions out and count no failure; CLASS runs the class's tests once under its name. PRINT, WARN, NOTIFY, COMMENT and the case titles count no failure and write their text, warnings and notifications to both streams, and titles are numbered 1, 2, 3, .... HELPER_CLEAN_TEST_VECTOR deletes each non-null element once and sets it to null. All of this is independent of whether the output streams can be written to.",
 ["inputs","fault_sequences"],"all values, points of failure, states of the streams, and vectors",
 "Tests are written with these macros; none makes one of them fail.",
 ["include/test.hpp"],[("the macros","include/test.hpp:HELPER_TEST_DECLARE, HELPER_TEST_CONSTRUCT, HELPER_CLEAN_TEST_VECTOR")],(),["failure count","output and error text","number of evaluations","value of the variable"])
p("C36","Compile-time type traits give the documented answers",
 "For every list of types, the index, membership and all-same traits and the concept aliases give the answer of their standard-library or mathematical definition.",
 ["programs"],"all type lists",
 "Quantified over types (programs), which run-time tests cannot sample.",
 ["include/metaprogramming.hpp"],[("traits and concepts","include/metaprogramming.hpp")],(),["static values"])
p("C37","Random values are uniformly distributed and differently seeded per run",
 "Over the generator's output distribution, randomiser values are uniform on the given interval, and two program runs are seeded independently.",
 ["inputs"],"the generator's output distribution and operating-system entropy",
 "A statistical claim; ten printed values say nothing about it.",
 ["include/randomiser.hpp"],[("seeding and distributions","include/randomiser.hpp")],(),["value frequencies"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
