import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
V="src/vec.rs";S="src/small_vec.rs";ST="src/string.rs";PT="src/ptr.rs";SC="src/scope.rs"
p("C01","Growable vectors follow sequence semantics under every operation history",
 "After any sequence of operations on growable vectors, contents, length and every value handed back equal those of a plain sequence subjected to the same operations, for every element type including zero-sized ones. An out-of-range index or range never changes the contents: the operation panics, except that splitting off past the end gives an empty vector.",
 ["histories","inputs"],"every finite history of vector operations over up to three vectors, every element size class (0, 1, 4, 16, over 1 KiB, over-aligned) and every argument, in range or not",
 "Each unit test runs one fixed three- or four-step script on i32; retain/dedup with a kept second element, split_off, drain, conversion from slices and zero-sized elements are never exercised.",
 [V],[("insert/remove/swap_remove/truncate/resize/append/split_off","src/vec.rs impl Vec"),("retain/dedup compaction","src/vec.rs RetainIter"),("range removal","src/vec.rs DrainInner"),("resize","src/vec.rs ResizeWith")],
 [("len","number of initialised elements","src/vec.rs Vec"),("ptr","block and its capacity","src/vec.rs Vec")],["Vec public API"])
p("C02","Small vectors behave the same inline and on the heap",
 "After any sequence of operations on a small vector, contents, length and every returned value equal those of a plain sequence, whatever the inline capacity and wherever the elements currently live. Moving between inline and heap storage, explicitly or by growth, never changes the contents, and a move back inline succeeds exactly when the elements fit. Out-of-range positions panic without changing the contents.",
 ["histories","inputs","configurations"],"every history of small-vector operations, every inline capacity (0..17 sampled) and element type, in every interleaving of inline and heap phases",
 "Tests use capacities 1-4 with one fixed script each; insertion at the end while inline, resize_with beyond the inline capacity, moving back inline, construction from arrays and removal while inline and full are never run.",
 [S,V],[("inline/heap dispatch","src/small_vec.rs redirect_fn"),("inline operations","src/small_vec.rs StackVec"),("storage moves","src/small_vec.rs try_move_to_heap_and_reserve_exact / try_move_to_stack"),("growth","src/small_vec.rs try_reserve")],
 [("storage","where the elements live","src/small_vec.rs Storage")],["SmallVec public API"])
p("C03","Vectors drop each element exactly once",
 "Every element moved into a growable vector is either handed back to the caller or dropped exactly once, no later than the end of life of the vector or of the iterator or boxed slice made from it. No history of operations leaks an element, drops it twice, or leaves an already dropped element visible.",
 ["histories"],"every history of vector operations ending with all owners dropped, including partially consumed iterators, drained ranges, boxed slices and conversions",
 "No test uses an element type with a destructor, so double drops and leaks are invisible to all of them.",
 [V,PT],[("drop on removal/truncate/clear","src/vec.rs"),("moved-out tracking","src/vec.rs IntoIter / DrainInner Drop"),("final drop","src/vec.rs impl Drop for Vec")],None,["element destructor calls"])
p("C04","Small vectors drop each element exactly once",
 "Every element moved into a small vector is either handed back to the caller or dropped exactly once, whether it lived inline or on the heap and however often the vector moved between the two. No history leaks an element, drops it twice, or leaves a dropped element visible.",
 ["histories","configurations"],"every history of small-vector operations and storage moves, every inline capacity, ending with all owners dropped",
 "No test uses an element type with a destructor, and none moves a small vector back inline.",
 [S,V,PT],[("inline truncate/clear/drop","src/small_vec.rs StackVec"),("storage moves","src/small_vec.rs try_move_to_*")],None,["element destructor calls"])
p("C05","Consuming and draining iterators are exact from both ends",
 "A consuming or draining iterator yields each remaining element exactly once, in order, for any interleaving of front and back steps, keeps returning nothing after it is exhausted, and always reports exactly how many elements remain and which. Dropping it early drops exactly the unyielded elements, and a drained vector then consists of the elements before and after the range, in order.",
 ["histories","inputs"],"every vector content, range form (half-open, inclusive, unbounded, excluded start) and interleaving of next, next_back, nth, length and slice queries, followed by drop, exhaustion or forgetting",
 "No test constructs an owning or draining iterator.",
 [V,S],[("owning iterator","src/vec.rs IntoIter"),("draining iterator","src/vec.rs DrainInner, Drain; src/small_vec.rs Drain")],None,["Iterator/DoubleEndedIterator/ExactSizeIterator methods"])
p("C06","Every memory block is returned once, intact, to the allocator that gave it",
 "Each block a container, box or reference-counted pointer obtains is resized or released only through the allocator that supplied it, with the exact layout it was obtained with, exactly once, and is never written outside its bounds or after release. No request has size zero, and once all owners are gone every block has been released.",
 ["histories","configurations"],"every history over all container and pointer types, with several allocators selected by scope and marker, ending with all owners dropped",
 "The tests use one permissive allocator that checks nothing and never look at what was requested or released.",
 [PT,V,S,"src/boxed.rs","src/rc.rs","src/arc.rs","src/urc.rs"],[("allocate/release/resize","src/ptr.rs ScopePtr alloc_layout, dealloc, realloc_array"),("ownership of the block","Drop impls of every container")],
 [("alloc","allocator that supplied the block","src/ptr.rs ScopePtr")],["GlobalAlloc calls seen by the user's allocators"])
p("C07","Capacity promises are kept",
 "A vector, small vector or string never reports a capacity below its length; after it accepts a reservation for n more elements, n elements can be added without any allocator request and without moving the existing ones. Shrinking keeps all elements and ends at no less than the larger of the length and the requested minimum. A reservation too large to be represented or supplied is refused and changes nothing.",
 ["histories","inputs"],"every history mixing reservations (up to the largest representable), shrinking, growth and removal, for all element size classes",
 "Tests check single reservations of 1-4 elements on an empty vector.",
 [V,S,ST,PT],[("reserve family","src/vec.rs try_reserve, grow_*; src/small_vec.rs try_reserve"),("shrink","src/vec.rs shrink"),("block resizing","src/ptr.rs realloc_array")],None,["capacity(), as_ptr(), allocator requests"])
p("C08","Inline, empty and zero-sized contents need no heap memory",
 "A small vector whose elements always fitted its inline capacity, and which was never asked for heap storage or a larger reservation, makes no allocator request and reports itself inline. An unfilled vector or string created without capacity, and any vector of zero-sized elements, makes no allocator request at all.",
 ["histories","configurations"],"every history that stays within the inline capacity (for every inline capacity) and every history over zero-sized elements",
 "Only one test asserts that a small vector is inline, at one capacity; none observes allocator requests.",
 [S,V,PT],[("inline capacity check","src/small_vec.rs try_reserve, push, insert"),("zero-sized handling","src/vec.rs capacity, try_with_capacity_and_marker; src/ptr.rs")],None,["allocator requests, is_stack/is_heap"])
p("C09","Allocation failure is reported and leaves every value intact",
 "When the allocator refuses a request, the fallible operations return an error without panicking and the others panic; either way existing containers keep the contents they had (multi-element growth may have completed a prefix), remain usable, and no element, value or block is leaked or dropped twice.",
 ["fault_sequences","histories"],"every history with a refusal injected at any allocation request of any operation, over vectors, small vectors, strings, boxes and reference-counted pointers",
 "No test makes an allocation fail.",
 [PT,V,S,ST,"src/arc.rs","src/rc.rs","src/urc.rs"],[("error propagation","src/ptr.rs AllocError, ArrayAllocError; src/vec.rs TryReserveError"),("allocate before mutate","growth paths of src/vec.rs and src/small_vec.rs")],None,["results of try_* operations; contents afterwards"])
p("C10","A panic in caller-supplied code never corrupts a container",
 "If a clone, destructor, comparison, predicate, generator or iterator supplied by the caller panics at any point inside an operation, the panic propagates and no element is dropped twice or remains visible after being dropped. Every container involved stays usable and can still be dropped safely.",
 ["fault_sequences","histories"],"every operation that runs caller code, with a panic at any of the callback invocations, followed by further operations",
 "No test makes a callback panic.",
 [V,S,ST,"src/rc.rs","src/arc.rs","src/urc.rs"],[("length shortened before callbacks","src/vec.rs truncate, RetainIter, DrainInner; src/small_vec.rs clear"),("guards","src/string.rs retain SetLenOnDrop")],None,["element destructor calls; contents after catch_unwind"])
p("C11","Strings edit like character sequences and stay valid UTF-8",
 "After any sequence of string edits, the text, length and every returned value equal those of a reference string under the same edits, and the bytes are always valid UTF-8. Edits at positions that are out of range or not on a character boundary panic and leave the text unchanged.",
 ["histories","inputs"],"every history of string edits over text mixing 1- to 4-byte characters, with positions on and off character boundaries",
 "The string type has no tests at all.",
 [ST,V],[("byte-level edits","src/string.rs insert_bytes, remove, retain, pop"),("boundary checks","src/string.rs is_char_boundary assertions")],None,["String public API"])
p("C12","String construction, decoding and collecting are faithful",
 "Building a string from text, characters, byte vectors, UTF-16 units, other strings or an iterator of any of these gives exactly the text a reference implementation gives, and decoding rejects exactly the malformed inputs. Slicing by any range form and formatting into or out of a string agree with the reference too.",
 ["inputs"],"every text, every byte sequence and UTF-16 sequence (well-formed or not), every iterator of pieces and every slicing range",
 "The string type has no tests at all.",
 [ST,V],[("decoding","src/string.rs from_utf8, from_utf16"),("From/FromIterator/Extend","src/string.rs"),("Index","src/string.rs")],None,["String constructors and traits"])
p("C13","Boxes own exactly one value and behave as that value",
 "A box gives back exactly the value stored in it; the value is dropped once when the box is, or not at all when it is taken out. Comparison, hashing, formatting and iteration through a box give the same results as on the value itself, and scope pointers created directly follow the same ownership rules.",
 ["histories","inputs"],"every history of creating, mutating, unwrapping, forgetting and dropping boxes and scope pointers of values with destructors, every iterator consumption pattern through a box",
 "There is no test of the box type at all.",
 ["src/boxed.rs",PT],[("store/take","src/ptr.rs ScopePtr::alloc, into_inner, Drop"),("delegation","src/boxed.rs trait impls")],None,["Box and ScopePtr API, destructor calls"])
p("C14","Single-threaded counted pointers track their value's lifetime exactly",
 "For any history of cloning, downgrading, upgrading, unwrapping, mutating and dropping single-threaded counted pointers, including values that hold further such pointers, the value is dropped exactly when its last strong pointer goes and its memory when the last pointer of either kind goes. Counts are exact, upgrading succeeds exactly while the value lives, and exclusive access is granted only to a sole owner: copy-on-write never changes what another strong pointer sees.",
 ["histories"],"every history over up to eight handles and several values, with values linking to one another strongly or weakly (also to themselves weakly)",
 "The type has no tests at all.",
 ["src/rc.rs",PT],[("counts","src/rc.rs RcBox"),("release","src/rc.rs Drop for Rc / Weak"),("copy-on-write","src/rc.rs make_mut")],
 [("strong/weak","reference counts","src/rc.rs RcBox")],["Rc/Weak API, destructor calls"])
p("C15","Atomically counted pointers track their value's lifetime exactly",
 "For any history of cloning, downgrading, unwrapping, mutating and dropping atomically counted pointers, the value is dropped exactly when its last strong pointer goes and its memory when the last pointer of either kind goes. Counts are exact, and exclusive access or unwrapping is granted only to a sole owner: copy-on-write never changes what another strong pointer sees.",
 ["histories"],"every single-threaded history over up to eight strong and weak handles of several values",
 "Tests run five fixed scripts on integers (no destructor), so leaks, double drops and stale counts after weak pointers go away are invisible.",
 ["src/arc.rs",PT],[("counts","src/arc.rs ArcInner, AtomicCounter"),("release","src/arc.rs Drop for Arc, drop_slow"),("copy-on-write","src/arc.rs make_mut")],
 [("strong/weak","reference counts","src/arc.rs ArcInner")],["Arc/Weak API, destructor calls"])
p("C16","Atomically counted pointers are safe under every thread schedule",
 "When several threads clone, read, downgrade, unwrap, mutate through copy-on-write or exclusive access, and drop pointers to one value, under every schedule the value is dropped exactly once after all other accesses, its memory is released exactly once, no access races with the destructor or with an exclusive write, and every operation finishes.",
 ["schedules","histories"],"every small multi-threaded program over shared handles and every interleaving and memory-ordering outcome of it",
 "One test sends one pointer to one thread once; it samples a single uncontended schedule on hardware that hides missing orderings.",
 ["src/arc.rs"],[("orderings and fences","src/arc.rs clone, drop, try_unwrap, get_mut"),("weak-count lock","src/arc.rs is_unique, downgrade")],None,["race detector, destructor and allocator calls"])
p("C17","Hybrid counted pointers track their value's lifetime within a thread",
 "For any single-threaded history of cloning, downgrading, unwrapping, mutating, converting to and from the sendable form, and dropping hybrid counted pointers, the value is dropped exactly when its last strong pointer goes and all memory is released when the last pointer of either kind goes. Counts are exact, a refused conversion or unwrap changes nothing, and exclusive access is granted only to a sole owner: copy-on-write never changes what another strong pointer sees.",
 ["histories"],"every single-threaded history over up to eight strong and weak handles of several values, including several per-thread groups of handles to one value",
 "One test shares one integer vector once; no counts, weak pointers, unwrapping or mutation are tested.",
 ["src/urc.rs",PT],[("two-level counts","src/urc.rs Fence, Master"),("release","src/urc.rs Drop for Urc / Weak"),("copy-on-write","src/urc.rs make_mut")],
 [("fence counts","handles of one thread","src/urc.rs Fence"),("master counts","groups alive","src/urc.rs Master")],["Urc/Weak/Fence API, destructor calls"])
p("C18","Hybrid counted pointers are safe when shared between threads",
 "When handles to one value are enveloped to other threads and each thread clones, reads, downgrades, unwraps, mutates and drops its own, under every schedule the value reaches the receivers unchanged, is dropped exactly once after all other accesses, and its memory is released exactly once. No access races with the destructor or with an exclusive write.",
 ["schedules","histories"],"every small multi-threaded program in which handles are handed over by envelope, and every interleaving and memory-ordering outcome of it",
 "One test sends one handle to one thread and reads one element.",
 ["src/urc.rs","src/scope.rs"],[("hand-over","src/urc.rs Envelop for Urc, src/scope.rs Envelope/ScopeRecv"),("master counts","src/urc.rs Drop")],None,["race detector, destructor and allocator calls"])
p("C19","Scopes nest and are restored",
 "While a spawned scope runs, it is the current scope and serves the allocation requests made inside it, at any nesting depth; its initialiser sees the enclosing scope. When it ends, normally or by panic, the enclosing scope is current again, and the result of the spawned work is returned unchanged.",
 ["histories"],"every tree of nested and sequential scope spawns up to depth 8, with allocations before, inside and after, scopes of any size and layout, and exits by return or panic",
 "No test spawns a scope.",
 [SC],[("spawn/restore","src/scope.rs Env::spawn"),("lookup","src/scope.rs current, Env::current")],[("cur","current scope","src/scope.rs Env")],["Scope::alloc_for calls"])
p("C20","Allocation requests carry the right type and marker",
 "Every request for memory reaches the current scope with a selector naming the element or value type and the marker given when the container was created, for its whole life including later growth, shrinking and storage moves, and the container reports that marker. Selectors or markers for the same type and marker are equal and hash equally, and those for different ones are unequal.",
 ["histories","inputs"],"every container type, marker (none or type-based), construction route and later history of growth, shrinking and conversion",
 "No test uses a marker or inspects a selector.",
 [SC,V,S,ST,"src/boxed.rs",PT],[("selector construction","src/scope.rs AllocSelector, AllocMarker"),("marker storage","src/ptr.rs ScopePtr; src/small_vec.rs marker; src/vec.rs with_marker")],None,["selectors seen by Scope::alloc_for; marker()"])
p("C21","Comparison, ordering, hashing and formatting agree with the contents",
 "Any two vectors, small vectors, strings or pointers compare, order, hash and print exactly as their slices, texts or pointed-to values do, regardless of capacity, marker or where the elements are stored. Hence equal values hash equally and a container can be looked up by its borrowed form.",
 ["inputs"],"every pair of contents, with each side in any storage form or capacity, for every container and pointer type",
 "Only equality and debug printing of one integer pointer are tested.",
 [V,S,ST,"src/boxed.rs","src/rc.rs","src/arc.rs","src/urc.rs"],[("PartialEq/Ord/Hash/Debug/Display/Borrow impls","all container modules")],None,["trait impls"])
p("C22","Conversions between containers preserve contents",
 "Converting among arrays, slices, vectors, small vectors, boxed slices, strings and iterators, in any chain, keeps all elements in order; converting back yields an equal container. Owning conversions move the elements rather than copying them, so none is cloned or dropped on the way, and cloning or building from a borrowed slice leaves the source unchanged and independent.",
 ["inputs","histories"],"every chain of conversions from every starting contents, element type, inline capacity and spare capacity",
 "Only one test builds a vector from an array of ten integers; the others never convert.",
 [V,S,ST,"src/boxed.rs"],[("From impls","src/vec.rs, src/small_vec.rs, src/boxed.rs, src/string.rs"),("into_boxed_slice/into_vec/into_iter","src/vec.rs, src/small_vec.rs")],None,["contents and element identity before and after"])
p("C23","Safe operations never touch memory they do not own or have not initialised",
 "No history of safe operations on any of the library's types reads uninitialised, released or out-of-bounds memory, forms a value of a type from invalid bits, or performs a misaligned access.",
 ["histories","inputs"],"every short history of safe operations over all container, string and pointer types, executed under an interpreter that tracks initialisation and bounds of every byte",
 "The tests run natively, where reading one element past the end or an uninitialised byte has no visible effect.",
 [V,S,ST,PT,"src/rc.rs","src/arc.rs","src/urc.rs","src/boxed.rs"],[("raw copies and reads","src/vec.rs, src/small_vec.rs StackVec, src/string.rs insert_bytes/remove/retain"),("raw pointers","src/ptr.rs")],None,["Miri execution of generated histories"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
