"""property -> (rule module, what is decided, assumptions)"""
COMMON = ["one scheduler per thread: other tasks run only at suspension points (yield, sleep, yielder "
          "and other indirect calls)",
          "the compiler front end (clang 18, -O1 without passes, then sroa) represents the source faithfully",
          "pointers to differently typed structure fields do not overlap"]
AI = "abstract interpretation over all paths; "
CHECKS = {
    "C01": ("rules_sched", AI + "queue operations, counts and states agree on every path of the scheduler, wake-up, start and end", COMMON),
    "C02": ("rules_sched", AI + "ordered insertion, key growth, placement and choice of the next task", COMMON),
    "C03": ("rules_sched", AI + "poll-before-pick, blocking condition, event delivery loop, return condition", COMMON),
    "C04": ("rules_sched", AI + "pairing of saved and resumed contexts, release only after leaving the stack", COMMON),
    "C05": ("rules_sched", AI + "join protocol on both sides", COMMON),
    "C13": ("rules_time", AI + "expiry validity, ordered sleepers, arming and re-arming of the timer", COMMON),
    "C14": ("rules_time", AI + "exactness of the expiry and of the remaining time as linear identities; no narrow wrap-around", COMMON),
    "C06": ("rules_wait", AI + "every waiter record made for a suspension (queue node, timer node, joiner, channel task) is removed on every return path", COMMON),
    "C07": ("rules_wait", AI + "no success without the condition observed after the last suspension; registered before suspending", COMMON),
    "C10": ("rules_itc", AI + "slot arithmetic, copied extents, waiting and waking of both channel sides; geometry of the buffers", COMMON),
    "C11": ("rules_itc", AI + "detaching, waking and reference handling of channel ends", COMMON),
    "C12": ("rules_itc", AI + "ready-list membership against buffer fill on every transition; time-outs", COMMON),
    "C15": ("rules_io", AI + "would-block tests before every suspension, equal arguments of every retry, results passed through", COMMON),
    "C16": ("rules_io", AI + "inductive position/remaining-length identities over every partial step, vector advance, result cases", COMMON),
    "C17": ("rules_io", AI + "ownership of every descriptor made: mode set, closed once or handed out on every exit", COMMON),
    "C19": ("rules_splice", AI + "every pass of the splice loops: buffer accounting, outcome of each direction, suspension type, stop and release", COMMON),
    "C20": ("rules_ring", AI + "regions, completion and storage as linear identities under the buffer's invariant (polyhedra)", COMMON + ["no object is larger than half the address space", "callers complete at most the bytes stored or free"]),
    "C21": ("rules_cio", AI + "method tables of all kinds resolved, then target, arguments, result and error of every delegation and system call", COMMON),
    "C22": ("rules_cio", AI + "what every destructor, pop and the base class release, how often and in which order", COMMON),
    "C23": ("rules_cbuf", AI + "every byte copied or moved between user, buffer and next stage: place, size, count and order as linear identities (polyhedra)", COMMON + ["the circular buffer behaves as decided for it"]),
    "C26": ("rules_ref", AI + "count changes, destroy condition, memory ordering and late uses on every path of every ref/unref pair", COMMON),
    "C30": ("rules_reactor", AI + "bits, task, reactor and result of every registration; watching and re-asking while polling", COMMON),
    "C18": ("rules_own", AI + "ownership state of every resource acquired on every path of every constructor; fields a constructor fills against what its destructor releases", COMMON),
    "C32": ("rules_sys", AI + "order, undoing and completeness of start-up on every failing and succeeding path; order and completeness of shut-down; allocator in force at every allocation and release", COMMON + ["storing thread-specific data for the allocator does not fail"]),
    "C29": ("rules_stack", AI + "bounds, alignment, guard and release of every stack as linear terms for several page sizes and both back ends; straight-line interpretation of the x86-64 switch routine", COMMON + ["only the x86-64 switch routine is decided"]),
    "C24": ("rules_mem", AI + "every path of every method under the books' invariant: block size against class, class range, one block in or out per list change, count, order list replayed, limit, tear-down loops; for several limits", COMMON + ["the cache limit is at least one"]),
    "C25": ("rules_mem", AI + "allocator chosen, request handed on, bytes cleared, product checked and block returned on every path; thread-specific default", COMMON + ["an allocator object can be made when memory is left"]),
    "C27": ("rules_dns", AI + "hand-over, waiting, answer and error of every lookup on both sides, composed over the request layout; start-up and critical sections of the helper thread", COMMON),
    "C28": ("rules_glob", "whole-program flow of the addresses of file-level variables (by field), sets of locks held, once-only functions; path-sensitive check of constant stand-in objects; " + AI + "parts of each thread are new", COMMON + ["objects reached only through pointers handed out to callers are not file-level variables"]),
    "C31": ("rules_tree", "shape analysis of every tree operation: nodes made known case by case, loops folded to a fixed point, the resulting tree judged (links, colours, black heights as linear terms, in-order word)", ["trees are only changed through the tree functions", "callers link a new node at an empty place and say truly whether it comes first", "the compiler front end (clang 18, -O1 without passes, then sroa) represents the source faithfully"]),
    "C08": ("rules_sync", AI + "mutex operations", COMMON),
    "C09": ("rules_sync", AI + "condition operations", COMMON),
}
TECH = ("static: path-sensitive abstract interpretation (dataflow) of the LLVM IR of the current source, "
        "with rules over the effects of every abstract path")
TECHNIQUE = {"C31": "static: shape analysis (abstract interpretation over tree fragments with folding to a fixed point) of the LLVM IR of the current source"}
NA = {}
