#!/usr/bin/env python3
# Regenerates properties.jsonl (kept in step by hand with MANIFEST.json and DESIGN.md).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
X="code/xmem/"
SP,WP,CC,PP=X+"basic_shared_ptr.hpp",X+"basic_weak_ptr.hpp",X+"common_control_block.hpp",X+"cb_ptr_pair.hpp"
UP,EF,AS,SL=X+"unique_ptr.hpp",X+"basic_shared_from.hpp",X+"basic_atomic_shared_ptr_storage.hpp",X+"bits/spinlock.hpp"
AR,LR,SH,LS,ST=X+"atomic_ref_count.hpp",X+"local_ref_count.hpp",X+"shared_ptr.hpp",X+"local_shared_ptr.hpp",X+"std_helpers.hpp"
AL,RB,DD,OS=X+"allocator.hpp",X+"allocator_rebind.hpp",X+"default_delete.hpp",X+"ostream.hpp"
CNT=[("strong count","number of owning handles; the object lives while it is not 0",CC),("weak count","number of weak handles, plus one while the object lives",CC)]
p("C01","A shared object is destroyed exactly once, when its last owner lets go",
 "In every history of creating, copying, moving, converting, aliasing, assigning, swapping, resetting and dropping strong and weak handles, a shared object is destroyed exactly once, at the moment its last strong handle lets go of it, never earlier and never later. At every point the reported use count is exactly the number of strong handles that share ownership. This holds alike for the thread-safe, the single-thread and user-supplied control blocks, and however many handles there are.",
 ["histories","programs"],"every sequence of handle operations, of any length, over a handful of handles of different but related types; plus every use count up to a large bound",
 "The repository's tests walk a few fixed sequences; the ones that run here never create a shared pointer at all. A count that is off by one only after a particular combination (same owner, converting move, swap with an alias, null operand) needs all combinations.",
 [SP,WP,CC,SH,LS,AR,LR],[("strong reference counting","control_block_base::inc_strong_ref/dec_strong_ref"),("init_from_copy/init_from_move/init_new",SP)],CNT,["use_count","destructor calls"])
p("C02","Storage of shared objects is released exactly once and never used after",
 "Every piece of storage obtained on behalf of a shared object is given back exactly once, in the way it was obtained (same size, alignment, form and allocator): an object made separately is given back when it is destroyed, the bookkeeping when the last strong and the last weak handle are gone. Nothing is leaked while or after any history of handle operations, and no operation reads or writes storage that was already given back.",
 ["histories","programs"],"every sequence of handle operations, of any length, over a handful of handles and owners, for each way of creating an owner and each kind of control block",
 "Leaks and premature frees depend on the interleaving of strong and weak lifetimes over a history; tests exercise a handful of orders and need a sanitizer to see even those.",
 [CC,SP,WP,AL,RB,DD],[("control block self-destruction","control_block_resource::destroy_self"),("implicit weak reference of all strong handles","control_block_base::dec_strong_ref")],CNT,["allocation and deallocation calls"])
p("C03","Shared handles have the documented value after every operation",
 "After any operation on strong handles, each handle has the value a plain reference model of std::shared_ptr gives it: a copy leaves its source unchanged, a move leaves its source empty, swap exchanges both the pointer and the ownership, self-assignment changes nothing, reset empties. Conversions between related types adjust the pointer and keep the owner. The pointer, truth value, owner identity and use count observed through each handle agree with that model.",
 ["histories","inputs"],"every sequence of handle operations over several handles of related types (base at an offset, const, void), including null, self, same-owner and aliased operands",
 "The operand combinations (null/self/same owner/alias, per overload and type pair) multiply; tests take one or two points of each.",
 [SP,PP],[("cb_ptr_pair transfer",PP),("same-owner short cut in swap","basic_shared_ptr::swap"),("self checks in assignment","basic_shared_ptr::operator=")],None,["get","operator bool","owner","t_owner","use_count"])
p("C04","Weak handles track their object without keeping it alive",
 "A weak handle is expired exactly when no strong handle shares its owner any more; locking it yields a strong handle with the right pointer and the same owner if it is not expired and an empty one otherwise. Weak handles never extend the life of the object, are truthy exactly when they have an owner, and copying, moving, converting (also across virtual bases), aliasing, assigning, swapping and resetting them in any history, before or after expiry, gives them the value a plain model gives and never touches the dead object.",
 ["histories","inputs"],"every sequence of strong and weak handle operations over several handles of related types, in every phase of the object's life",
 "Expiry splits every weak operation in two and combines with every operand shape; tests check one path of each.",
 [WP,CC],[("promotion only from a non-zero count","control_block_base::inc_strong_ref_nz, basic_weak_ptr::lock"),("null checks in the aliasing constructors",WP)],CNT,["lock","expired","use_count","owner","operator bool"])
p("C05","A handle takes its new value before the old object is released",
 "When a strong handle is assigned, reset or swapped, it already has its new value (or is already empty) when the old object's destructor runs. So the new value may live inside the object being released (as in head = head->next), and the destructor may read, copy, assign or reset the very handle through which it was released, as with std::shared_ptr, without use after free, double destruction, loss of a reference or wrong count.",
 ["histories","programs"],"every sequence of operations over linked nodes and handles, with every choice of re-entrant action performed by a destructor on every handle",
 "The failing shapes need a destructor that reaches back into the handles, or a right-hand side owned by the left-hand side; no test has either.",
 [SP,CC],[("ordering of release and acquire in assignment and reset","basic_shared_ptr::operator=, reset")],None,["handle values inside destructors","destructor calls"])
p("C06","A failed creation or adoption changes nothing and leaks nothing",
 "If an allocation, a control block's construction or an object's constructor fails while an owner is created, adopted or assigned, the error reaches the caller, everything obtained on the way is given back exactly once, and every handle involved keeps the value it had. A raw pointer being adopted is disposed of exactly once with the deleter it came with, a unique pointer being adopted keeps its object, and no destructor runs for an object that was never constructed.",
 ["fault_sequences","histories"],"every point of failure (each allocation, each user constructor) of every creating or adopting operation, from every reachable state of the handles",
 "Tests never make an allocation or a constructor fail.",
 [CC,SP,UP],[("guard around the fresh control block","control_block_resource::create, control_block_factory::make_*"),("order of adoption and release","basic_shared_ptr::operator=(unique_ptr&&)")],None,["exceptions","allocation calls","handle values"])
p("C07","An object can obtain handles to itself exactly while it is owned",
 "For types that can hand out handles to themselves, a strong or weak handle obtained from inside shares ownership with the existing owners and has the requested pointer; while nobody owns the object (never owned, in its constructor, in its destructor, after being released to the caller or by a deleter that keeps it alive) the strong handle is empty and asking has no other effect. Copying or moving the object's contents never transfers its ownership link, and adopting null or having several owners does not break it.",
 ["histories"],"every sequence of owning, releasing, re-owning, copying and assigning such objects and asking them for handles at every stage including construction and destruction",
 "Each test asks at one or two stages; the stages in which the object is not owned are reached only by particular histories and deleters.",
 [EF,CC,WP],[("link to the owner stored in the object","basic_enable_shared_from"),("link set when an owner is created","control_block_factory::prepare_pair")],None,["shared_from_this","weak_from_this","shared_from","weak_from"])
p("C08","A custom control block is told of every handle, exactly",
 "A user-supplied control block is informed of strong and weak handles such that, between any two operations of any history, the set of handle addresses it has been told are live is exactly the set of strong (respectively weak) handles that own it. It never hears of the same handle coming twice or going when it was not there, and is never called before it is constructed or after it is destroyed.",
 ["histories"],"every sequence of handle operations over several handles with a control block that records addresses",
 "Leak tracking is the library's reason to exist, but each move, swap, conversion, lock and aliasing reports differently and tests follow fixed scripts.",
 [SP,WP,EF,CC],[("init/inc/dec/transfer notifications","basic_shared_ptr, basic_weak_ptr, basic_enable_shared_from")],None,["control block member calls"])
p("C09","Threads may share an object: it dies once, after all uses",
 "When several threads each copy, move, convert, alias, use and drop their own strong and weak handles to a shared object, then under every interleaving the object is destroyed exactly once after its last strong handle is gone, its storage released exactly once after the last handle of either kind, and no access to object or bookkeeping races. Everything any owner did to the object through its handle before letting go happens before the destruction.",
 ["schedules","programs"],"all interleavings, including stale reads permitted by the memory orders used, of all small multi-threaded programs over shared ownership",
 "A test run sees a handful of the interleavings on one memory model, and a wrong memory order is invisible on x86; the threaded tests have 'no sensible checks' by their own comment.",
 [AR,CC,SP,WP],[("atomic counters with acquire/release decrement",AR)],CNT,["destructor calls","data races"])
p("C10","Promoting a weak handle is atomic with respect to the last release",
 "When threads lock weak handles while others drop the last strong handles, then under every interleaving each lock either yields a usable strong handle to the still living object or an empty one: an object whose destruction has begun is never handed out, and a lock that succeeds keeps the object alive. Once a handle has been observed expired by a lock it stays so.",
 ["schedules","programs"],"all interleavings (with stale reads and spurious compare-exchange failures) of all small programs of locking, copying, dropping and asking threads",
 "The window is a few instructions wide between reading and raising a counter; a test run almost never hits it.",
 [AR,WP,EF],[("increment-unless-zero loop","atomic_ref_count::inc_nz")],CNT,["lock results","destructor calls"])
p("C11","Atomic shared pointer storage is linearizable",
 "Concurrent load, store, exchange and compare_exchange on one atomic storage behave, under every interleaving, as if each took effect at one instant between call and return: a load returns a value that was current, an exchange the one it replaced, and compare_exchange replaces only a value equivalent to the expected one (same pointer and same owner) and otherwise reports the current one. No reference is lost or gained by any of them.",
 ["schedules","programs"],"all interleavings of all small programs over one storage, for the library's own and for the std:: flavour",
 "Linearizability quantifies over schedules; tests run two threads and only check there is no crash.",
 [AS,SL,ST],[("spinlock around the pointer","basic_atomic_shared_ptr_storage, xstd::impl::asps_holder")],[("stored pointer","the current value",AS),("spinlock","held while the stored pointer is read or changed",SL)],["return values","expected argument","use counts"])
p("C12","Atomic storage publishes safely and cannot be deadlocked by destructors",
 "Whatever a thread wrote to an object before putting it into an atomic storage is visible, race free, to every thread that gets the object out by load, exchange or a failed compare_exchange. No operation on the storage ever runs user code (such as the destructor of a replaced or forgotten object) while it blocks others, so every operation finishes under any fair schedule, even if such destructors use the same storage.",
 ["schedules","programs"],"all interleavings, with every placement of destructors that call back into the storage",
 "Needs a weak memory order to be observed, or a destructor to re-enter at the one critical moment; no test does either.",
 [AS,SL,ST],[("acquire/release spinlock",SL),("replaced value released after unlocking",AS)],None,["data races","progress of every thread"])
p("C13","A unique pointer disposes of its object once, with the deleter it came with",
 "Through any history of construction, move construction, (converting) move assignment, swap, reset, release and destruction of unique pointers, each object is disposed of exactly once, unless released, and always by the deleter it was bound to, which travels with it; a null pointer never reaches a deleter. This holds for stateless, stateful, by-reference and function-pointer deleters, moved-from pointers are null, self-move changes nothing, and a deleter the user holds by reference is not itself altered.",
 ["histories","inputs"],"every sequence of operations over several unique pointers for each kind of deleter, including null and self operands and conversion to a base type",
 "Which deleter meets which object depends on the whole history of moves and swaps; tests check one or two moves per deleter kind.",
 [UP,DD],[("deleter stored with the pointer","unique_ptr primary template and its specialisations")],None,["deleter calls","get","get_deleter"])
p("C14","A unique pointer's value is dependable while its object is being destroyed",
 "While a unique pointer destroys its object because it is itself destroyed, it still yields that object, so the object may refer to itself through its owner; while it destroys an object because it is reset or assigned, it already yields the new value. Actions by the dying object on other unique pointers, or reset and release of a pointer already holding its new value, are honoured and dispose of every object exactly once.",
 ["histories","programs"],"every sequence of operations over unique pointers with every choice of re-entrant action in destructors",
 "The guarantee is only visible from inside a destructor; no test looks there although the header promises it.",
 [UP],[("pointer kept until after the deleter ran","unique_ptr::~unique_ptr"),("new pointer stored before the old is deleted","unique_ptr::reset")],None,["get inside destructors","destructor calls"])
p("C15","Owned arrays are destroyed as arrays, each element once",
 "An array owned by a unique or shared array pointer has every one of its elements destroyed exactly once, in reverse order, and its storage released as an array's; indexing reaches exactly the elements. Array creation gives value-initialised elements, or default-initialised ones for the for_overwrite form, for every length including zero, and if an element's constructor fails, those already made are destroyed and nothing leaks.",
 ["inputs","histories","fault_sequences"],"every array length up to a bound and every failing element, with every sequence of operations over array pointers",
 "Tests use int arrays of one length, for which scalar and array deletion cannot be told apart.",
 [UP,SP,DD,CC],[("array specialisations","unique_ptr<T[],D>, default_delete<T[]>, make_unique")],None,["element constructors and destructors","allocation calls"])
p("C16","Reference counters count exactly and never rise from zero",
 "A reference counter starts at one; increments and decrements return the value they produced; an increment-unless-zero either returns the value it produced or, exactly if the count is zero, returns zero and changes nothing. The thread-safe counter does this atomically: under every interleaving all results are explained by some sequential order, exactly one decrement observes zero, and what happened before any decrement happens before whoever observed zero continues.",
 ["schedules","histories","inputs"],"every sequence of counter operations, every count up to a bound, and all interleavings of all small multi-threaded programs on one counter",
 "The two tests that run here check one ten-step single-threaded sequence.",
 [AR,LR],[("fetch_add/fetch_sub and a compare-exchange loop",AR),("plain counter",LR)],None,["inc","dec","inc_nz","count"])
p("C17","Every owned object lies in suitable storage from the allocator asked for",
 "Each object created by or for a shared owner lies entirely inside live storage obtained for it, aligned as its type demands, disjoint from the bookkeeping and from every other object, for every size and alignment. Where a user allocator is supplied, all storage for the owner comes from (a rebound copy of) that allocator and is given back with the same count to one comparing equal; the bare allocator honours size and alignment for every count.",
 ["inputs","histories"],"every object size and alignment in a range, each creation route and several allocators, through the life of the object",
 "Tests try three types; misplacement depends on the exact size and alignment.",
 [AL,RB,CC],[("aligned allocation",AL),("rebinding",RB),("object placed inside the control block","control_block_resource")],None,["addresses","allocator calls"])
p("C18","Creation helpers construct exactly one object from the arguments as given",
 "Each helper that makes an object (make_shared, make_unique, the local and std flavours, make_..._ptr, make_..._for_overwrite) runs exactly one constructor of exactly the requested type, receiving the arguments with their value category preserved (an lvalue is copied once and left unchanged, an rvalue is moved once), and yields the sole owner of it. The for_overwrite forms default-initialise.",
 ["inputs"],"every helper with every combination of argument count and value category up to a bound",
 "Tests use one or two argument shapes per helper and do not count constructions.",
 [SH,LS,UP,CC,ST],[("perfect forwarding","make_resource_cb, make_unique, make_shared_ptr, make_unique_ptr")],None,["constructor calls","use_count"])
p("C19","Comparison and ownership order are consistent over all handles",
 "For every two shared or unique pointers, ==, !=, <, <=, > and >= agree with comparing the stored pointers, and streaming prints the stored pointer. owner_before over any mix of strong and weak handles is a strict weak order whose equivalence is exactly same_owner, independent of the stored pointers and unchanged by expiry; same_owner and no_owner hold exactly when the owners are identical respectively absent.",
 ["inputs","histories"],"all pairs and triples of handles in all reachable states, including null, aliased, unowned and expired ones",
 "Tests compare two handles of two fixed addresses; ordering laws quantify over triples and states.",
 [SP,WP,UP,OS],[("comparison operators",SP),("owner_before",WP)],None,["operators","owner_before","same_owner","no_owner"])
p("C20","The std:: helper functions match their documented counterparts",
 "For std:: pointers the helpers do what their counterparts do for the library's own: make_aliased shares ownership unless the source owns nothing and then yields null, same_owner and no_owner compare ownership only, objects hand out handles to themselves sharing ownership while they are owned, and the atomic storage holds, returns and exchanges the values given to it, comparing both pointer and owner. This holds in every reachable state of the handles and whichever implementation the language version selects.",
 ["histories","inputs","configurations"],"every sequence of operations over std:: handles and a storage, in both language modes",
 "The std flavour is only tested through a few shared scripts.",
 [ST],[("helpers over std::shared_ptr",ST),("fallback holder with a spinlock","xstd::impl::asps_holder")],None,["helper results","use_count"])
p("C21","A custom control block stays consistent when handles are used by many threads",
 "With a thread-safe user-supplied control block, under every interleaving of threads using their own handles, the notifications it gets form, for every handle address, a strict alternation of coming and going, none arrives before its construction or after its destruction, and when all threads are done the recorded sets match the handles left.",
 ["schedules","programs"],"all interleavings of all small programs of copying, moving, locking, swapping and dropping threads, with and without an atomic storage",
 "A notification after the control block is gone needs a specific interleaving with the last release.",
 [SP,WP,CC,EF,AS],[("notification made while a reference is held",CC)],None,["control block member calls"])
p("C22","Aliases and casts share ownership and never invent it",
 "A handle made by aliasing, make_aliased or a pointer cast shares ownership with its source, keeps the whole object alive and points where asked; aliasing or casting from a source that owns nothing yields a handle that owns nothing, make_aliased and casts then yield null. A failed dynamic cast yields an empty handle and leaves the source untouched; a successful cast yields the same pointer the corresponding language cast gives, through multiple and virtual bases.",
 ["histories","inputs"],"every sequence of aliasing, casting and ordinary handle operations over all sources: null, owned, owned null, aliased, unowned",
 "The source shapes multiply with the cast kinds and class layouts; tests try one layout.",
 [SP,WP],[("make_aliased and the cast helpers",SP)],None,["get","owner","use_count"])
p("C23","Smart pointers have no size overhead beyond what is documented",
 "A unique pointer with a stateless deleter is as large as a raw pointer, a shared or weak pointer as two, and an atomic storage fits one cache line.",
 ["configurations"],"every element and deleter type",
 "A compile-time fact per instantiated type; tests assert it for a few.",
 [UP,SP,WP,AS],[("inheriting from the deleter",UP)])
p("C24","Operations that cannot fail are declared non-throwing",
 "Copying, moving, swapping, resetting, observing and locking handles are declared not to throw, so that containers and generic code may rely on it at compile time.",
 ["configurations"],"every element type and control block",
 "A compile-time fact per instantiated type that no test asserts.",
 [UP,SP,WP],[("noexcept specifications",SP)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
