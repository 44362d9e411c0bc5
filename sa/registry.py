"""which family decides which property, and what its evidence and its manifest entry say.
expect: counters which must be non-zero for a silent run to mean anything (otherwise the run gives no verdict)"""
CORE = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C19")
FAMILY = {p: "core" for p in CORE}
HOW = ("Abstract interpretation of the LLVM IR clang emits for the current source: all 8 instantiations of Server and Client, every public member "
       "started in every abstract object state reachable by constructor and any sequence of public calls (fixpoint over object states), OS primitives "
       "modelled with success and failure outcomes, merged and widened in loops. ")
ASM = ["POSIX primitives behave as specified; their models are in sa/models.py", "Eigen's dense assignment copies exactly the addressed block (Eigen is not analysed below call_dense_assignment_loop / assign)",
       "the object is used from one thread at a time; other processes may change shared memory at any moment (every load of shared memory yields a fresh value)",
       "std::bad_alloc is not modelled"]
INFO = {
 "C01": {"rule": "every access or dense transfer on the data segment inside read/write of a safe endpoint lies between a successful acquisition of the data lock in the same call and its release; on the outcome where the one-shot attempt fails nothing of the tensor or the caller's buffer is touched and false is returned", "expect": ["accesses to the shared tensor", "outcomes of read and write"]},
 "C02": {"rule": "hold count of the data lock (typestate per lock) before and after every public call, normal and exceptional outcomes alike: equal, except for the explicit pair and for a new server; no release without holding; no wait while holding", "expect": ["lock acquisitions", "lock releases", "outcomes compared"], "assume": ["after a failed sem_post nothing is claimed any more"]},
 "C03": {"rule": "effects of read/write on a running, non-verbose endpoint: no wait, sleep, allocation or output; exactly one sem_trywait in safe mode, none in unsafe mode", "expect": ["outcomes on running endpoints"]},
 "C04": {"rule": "for every dense transfer and element access on the mapped data segment: 0<=row, 0<=column, row+rows<=R, column+columns<=C with R*C*sizeof equal to the mapped size, proved in a linear domain from the branch conditions on the way", "expect": ["dense transfers on the shared tensor", "bound obligations"], "assume": ["dimensions times element size fit 32/64-bit arithmetic"]},
 "C05": {"rule": "ghost typestate not-running/running driven by successful run/stop/close/attach/detach; read/write in the not-running state touch neither tensor, lock nor caller buffer and return false; isRunning/isAttached return exactly the ghost state", "expect": ["outcomes on endpoints which are not running", "state queries"]},
 "C06": {"rule": "per outcome of read/write: true iff a transfer in the right direction of the caller's whole buffer, addressed through the caller's own pointer and strides, at exactly the requested position of the mapped tensor with its own dimensions; false implies no transfer; requests proved to fit are not refused", "expect": ["outcomes", "transfers decomposed", "refusals examined"]},
 "C07": {"rule": "the running flag is raised only while the server lock is held and lowered before it is released; lock held exactly while the ghost state is running; failing to obtain it throws", "expect": ["updates of the running flag", "releases of the server lock", "outcomes"], "assume": ["after a failed sem_post nothing is claimed any more"]},
 "C08": {"rule": "happens-before along every path: on the server all segments created, sized, mapped and written before the flag is raised; on the client the flag is seen before any metadata is read, and the data segment is mapped with the published size before attach returns normally", "expect": ["metadata writes", "raises of the running flag", "client metadata reads", "client mappings of the data segment", "successful attaches"], "assume": ["program order of the source: reordering by compiler or hardware is outside this rule (C28)"]},
 "C09": {"rule": "attach partitioned on the published type and layout codes: throws with no effect left unless both equal the codes the same instantiation of the server publishes, and does not reject equal ones", "expect": ["attach outcomes"]},
 "C10": {"rule": "every store to the count segment is zero (server creation) or a load of the same cell in the same lock interval plus/minus one; net change per outcome matches the attach state change; getter returns the shared cell", "expect": ["updates of the client count", "outcomes"]},
 "C11": {"rule": "each modelled primitive also takes its failure outcome (one per call, two in the thorough tier): afterwards the missing resource is never used and the public call ends by exception or false", "expect": ["injected failures", "outcomes after a failure"]},
 "C12": {"rule": "ownership typestate of every descriptor, mapping and semaphore handle: after close and destruction no live handle remains, none was released twice, none used after release", "expect": ["uses of descriptors, locks and mappings", "outcomes of close and destruction"]},
 "C13": {"rule": "effects restricted by role: clients never unlink, and never write metadata other than the count; a closing server unlinks data, five metadata segments and two locks; every name starts with the endpoint's own namespace and name", "expect": ["creations, removals and resizings", "outcomes of close and destruction"]},
 "C14": {"rule": "names as symbolic strings: the same role has the same name, element type and size on both sides, and distinct roles have distinct names; mapped sizes agree", "expect": ["mappings", "views of the shared tensor"]},
 "C19": {"rule": "every absolute deadline equals the current CLOCK_REALTIME time plus the configured amount, normalised; positive timeouts never use an unbounded wait; expiry is reported as failure", "expect": ["timed waits", "expired waits"]},
}
for p in CORE:
    INFO[p]["rule"] = HOW + "Rule: " + INFO[p]["rule"] + "."
    INFO[p]["assumptions"] = ASM + INFO[p].get("assume", [])
    INFO[p]["technique"] = "typestate and effect analysis by abstract interpretation of LLVM IR"
    INFO[p]["note"] = "Every path of every public member of all 16 instantiations from every reachable abstract state, with one injected OS failure per call where the rule needs it; trusts the OS/Eigen/std models in sa/models.py and single-threaded use of one endpoint object."
NOT_APPLICABLE = {
 "C15": "no check yet", "C16": "no check yet", "C17": "no check yet", "C18": "no check yet", "C20": "no check yet", "C21": "no check yet", "C22": "no check yet", "C23": "no check yet",
 "C24": "no check yet", "C25": "no check yet", "C26": "no check yet", "C27": "no check yet",
 "C28": "linearizability of whole histories across processes on weakly ordered hardware quantifies over interleavings and memory-model executions of several processes; no sound static rule over this source decides it (the lock-interval part is C01/C02)",
 "C29": "recovery after a crash at any point depends on the OS state a dead process leaves behind and on the timing of other processes; it is not a fact about the source",
 "C30": "a bound on execution time depends on hardware, scheduler and load, none of which the source fixes (absence of blocking calls is C03)",
}
FAMILY["C25"] = "codes"; del NOT_APPLICABLE["C25"]
INFO["C25"] = {"rule": "enumerator constants (syntax tree) are distinct single bits; operator+, operator- and isin, abstracted to bitwise expressions over both operands, are compared bit by bit with union, difference and inclusion (all 2^128 operand pairs at once); descriptions by constant propagation for every code, every pair and all codes together",
  "expect": ["return codes", "operator result bits", "descriptions of single codes", "descriptions of combined codes"], "technique": "constant propagation and bit-sliced expression analysis over IR, enumerators from the syntax tree",
  "note": "Operators for all operands; descriptions for no code, every single code, every pair and all together. RESET as an operand of operator- is left unspecified.", "assumptions": ["std::string, std::unordered_map and std::map behave as specified"]}
FAMILY["C26"] = "journal"; del NOT_APPLICABLE["C26"]
INFO["C26"] = {"rule": "every (form, level, throw request) combination of Journal::log is interpreted abstractly with symbolic texts: throws a runtime_error mentioning class, method and message iff exception level and throw request, otherwise one output of the message with class and method; and over the abstract histories of Server, Client, Producer and Consumer the outcome kinds (return/exception) of each public call for each set of failed primitives are the same for verbose and quiet construction",
  "expect": ["journal outcomes", "outcomes compared across verbosity"], "technique": "abstract interpretation of IR; comparison of abstract outcome tables across verbosity",
  "note": "All levels and forms of the journal; all public members of the four endpoint classes with verbosity and level pinned to quiet, verbose/lowest, verbose/highest.", "assumptions": ASM}
FAMILY["C27"] = "views"; del NOT_APPLICABLE["C27"]
INFO["C27"] = {"rule": "for all 8 instantiations of createViewFrom with symbolic tensor shape, position and size: on every return the branch conditions entail (linear domain) that the block lies inside the tensor, and the returned map's pointer, extents and strides are exactly those of the block; exceptions only where the block is not inside",
  "expect": ["outcomes of createViewFrom", "bound obligations", "view shapes", "strides compared"], "technique": "abstract interpretation of IR with a linear domain",
  "note": "All shapes, positions and sizes within the range of int; trusts the memory layout of Eigen::Map/Matrix as compiled.", "assumptions": ASM[1:2] + ["tensors have fewer than 2^63 elements"]}

for p in ("C17", "C18"): FAMILY[p] = "trigger"; del NOT_APPLICABLE[p]
for p in ("C12", "C13", "C14", "C19"): FAMILY[p] = "core+trigger"
TRIG = ("Abstract interpretation of the IR of Producer, Consumer and ConditionVariable, every public member from every reachable abstract object state (names, callbacks, "
        "timeouts and counter values symbolic; waits may return by notification, spuriously or by timeout; every read of a counter yields an arbitrary new value). ")
INFO["C17"] = {"rule": TRIG + "Rule: the intersection of the mutexes held over all accesses of a counter, in both classes, is not empty and differs between the two counters; waits, notifications and the "
  "release of the mutex after an update are judged against the mutex and condition variable inferred for that counter; no mutex is held at exit, taken twice, or taken in opposite orders.",
  "expect": ["counter accesses", "waits", "notifications", "updates followed to their release"], "technique": "lockset and typestate analysis by abstract interpretation of LLVM IR",
  "note": "All schedules are covered through the discipline: the rule is a sufficient condition for absence of races and lost wake-ups on the counters, it does not enumerate interleavings.",
  "assumptions": ASM[:2] + ["a successful read or write of a running 1x1 counter transfers exactly its value (C04-C09)", "boost::interprocess named_mutex/named_condition behave as documented"]}
INFO["C18"] = {"rule": TRIG + "Rule: for each outcome of wait / wait_ack_from the relation between the last counter value read, the stored count of consumed events before and after the call and the result is "
  "decided: true iff advanced by exactly one (n) and recorded, unchanged otherwise, false only with an expired timeout; every store to a counter is the value of the same lock interval (or of the only "
  "writer) plus one, exactly once per successful call; wait_and_ack true only with wait, callback and acknowledgement.",
  "expect": ["outcomes of waits", "outcomes of updates", "outcomes of wait_and_ack", "counter updates"], "technique": "relational abstract interpretation of LLVM IR (linear equalities over counter values)",
  "note": "All counter values, timeouts, numbers of consumers and callback results; arithmetic on counters is taken as exact (2^31 triggers).",
  "assumptions": ASM[:2] + ["a successful read or write of a running 1x1 counter transfers exactly its value (C04-C09)", "fewer than 2^31 triggers per run"]}
INFO["C19"]["expect"] = list(INFO["C19"].get("expect", [])) + ["deadlines"]
INFO["C14"]["expect"] = list(INFO["C14"].get("expect", [])) + ["names compared"]
for p in ("C15", "C16"): FAMILY[p] = "strings"; del NOT_APPLICABLE[p]
CELL = ("Abstract interpretation of the IR of StringTensor<Server> and StringTensor<Client> with a byte-provenance domain (every byte of memory is a constant, a byte of a named input string, "
        "an unknown old byte, or corrupted), linear constraints over index and tensor length, loops executed on the abstract state, trace-partitioned by string length and list length. ")
INFO["C15"] = {"rule": CELL + "Rule: every load and store stays inside its object for every index and tensor length (linear entailment); a transfer to the shared tensor happens only if index and count fit and no string "
  "is longer than a slot, covers exactly the addressed columns, and otherwise the call returns false without one.",
  "expect": ["outcomes", "bound obligations", "memory accesses checked", "blocks transferred"], "technique": "abstract interpretation of LLVM IR: byte-provenance memory domain with linear constraints",
  "note": "All int indices, all tensor lengths; list lengths 0..3 and three huge ones; string lengths 0..1024 (quick: boundary lengths and a sample) and seven overlong ones. Trusts std::string as modelled and the Server/Client behaviour decided in C04-C06.",
  "assumptions": ["Server/Client read and write transfer exactly the addressed block or refuse (C04-C06)", "std::bad_alloc is not modelled"]}
INFO["C16"] = {"rule": CELL + "Rule: after a successful write of strings through one endpoint and a successful read of the same slots through another into strings with earlier contents, byte k of string j is byte k of input string j "
  "and the length is the same, for all previous contents of staging buffers and shared memory; a failed transfer is reported; a request which fits is not refused.",
  "expect": ["strings compared", "bytes compared", "outcomes"], "technique": "abstract interpretation of LLVM IR: byte-provenance memory domain (symbolic non-zero input bytes)",
  "note": "All byte values without NUL, all previous contents, all indices and tensor lengths; string lengths 0..1024 in the thorough tier (quick: boundary lengths and a sample), lists up to three strings.",
  "assumptions": ["Server/Client read and write transfer exactly the addressed block or refuse (C04-C06)", "little-endian, 4-byte int, as compiled"]}

for p in ("C20", "C21"): FAMILY[p] = "bind"; del NOT_APPLICABLE[p]
PYB = ("Abstract interpretation of the IR of the six binding units: the module initialiser is interpreted with pybind11 modelled by its interface, which yields the table of registered classes, methods, "
       "factories, enumerators and argument names; then each registered function is interpreted with symbolic arguments, native member functions and Python attribute calls recorded. ")
INFO["C20"] = {"rule": PYB + "Rule: for every element type x layout (and an unknown one of each) the factory constructs exactly one endpoint of that type and layout whose constructor receives, at the position of each "
  "meaning, the argument of that keyword, and raises for unknown codes; constructor keywords are in the order of the native parameters; string tensor, producer and consumer constructors hand their arguments on to the "
  "endpoints they contain; conversions and enumerators agree with the C++ types and values.", "expect": ["registrations", "factory outcomes", "endpoints compared", "constructor arguments compared", "constructor keywords compared", "conversions"],
  "technique": "abstract interpretation of the pybind11 registration code and of every factory (LLVM IR)", "note": "All element types and layouts, all argument values. Trusts pybind11's argument binding.",
  "assumptions": ["pybind11 binds positional and keyword arguments as documented"]}
INFO["C21"] = {"rule": PYB + "Rule: every read/write of the 16 typed classes reaches the native transfer exactly for two-dimensional arrays of the coherent layout with strides in whole elements, through a view with the array's own "
  "pointer, shape and strides, row and column in order, returning its result, with a writable, unconverted array for read; every other method performs one native call of its name with its arguments in order; the "
  "run-time typed wrappers compare the element type (all 4x5 combinations) before forwarding to the same-named method of the wrapped object.",
  "expect": ["registrations", "transfer outcomes", "transfers compared", "methods bound directly", "wrapper outcomes", "forwarded calls", "outcomes of bound functions", "array arguments of read"],
  "technique": "abstract interpretation of every registered Python-callable function (LLVM IR)", "note": "All shapes, non-negative strides, positions and values. Trusts pybind11, NumPy's buffer protocol and Eigen::Map.",
  "assumptions": ["pybind11 and NumPy's buffer_info behave as documented", "array strides are not negative"]}

for p in ("C22", "C23", "C24"): FAMILY[p] = "pylayer"; del NOT_APPLICABLE[p]
PYL = ("Path-sensitive symbolic evaluation of the syntax trees of the Python layer (wrappers and ROS bridge; arguments, native objects, arrays and ROS objects symbolic, branches forked, retry loops unrolled three times), "
       "against the table of names and signatures obtained by interpreting the IR of the binding units' module initialiser. ")
INFO["C22"] = {"rule": PYL + "Rule: every attribute, call and keyword used on a native class, object, enumeration or function, for every kind of object that can reach the site, from every state reached by up to three calls "
  "and ROS callbacks, is registered in the bindings with an accepting signature; the first parameter of every function bound as a method is the class itself.",
  "expect": ["call sites", "call sites evaluated", "bound methods"], "technique": "type-state resolution of Python call sites against the interpreted registration table",
  "note": "All configurations of constructor arguments. Trusts that external (NumPy, torch, ROS) names exist.", "assumptions": ["pybind11 binds positional and keyword arguments as documented"]}
INFO["C23"] = {"rule": PYL + "Rule: each native transfer of a wrapper is in the direction the method stands for, its view is a block of the wrapper's mirror whose start equals the offsets handed to the native call and whose extent is that "
  "of the data (linear equality), data stored before a write and copied out after a successful read, the result is the transfer's, retrying methods end only after a successful transfer or when the endpoint stopped, "
  "nothing that fits is refused; dictionary blocks are at the sum of the preceding dimensions for writing and reading, names and dimensions travel through their own tensors.",
  "expect": ["transfers", "offsets compared", "results compared", "data stores compared", "values returned", "mirrors", "dictionary blocks", "name transfers", "dimension transfers"],
  "technique": "path-sensitive symbolic evaluation of Python syntax trees with linear equalities over rows, columns and shapes",
  "note": "All non-negative rows and columns, shapes, directions and retry modes; three named blocks. Trusts NumPy slicing and assignment, and the native transfers (C04-C07, C21).",
  "assumptions": ["rows and columns passed are not negative", "NumPy slicing behaves as documented", "native transfers move exactly the block passed (C04-C07, C21)"]}
INFO["C24"] = {"rule": PYL + "Rule: per supported element type decode(encode(t)) = t, anything else raises; per field the topic term published equals the topic term subscribed with the same message class, topics of different fields differ and "
  "depend on namespace and name; for each subset and order of metadata callbacks the subscriber runs only with all three, array and server built from the values of the matching fields; FromRos reports running only after "
  "run() of a server of the bridged name, namespace, shape and type; updates move the whole tensor in the right direction and publish what was read.",
  "expect": ["message types", "type codes", "publications", "topics compared", "arrival orders", "subscriber arrays", "data callbacks", "bridge starts", "server arguments", "bridge updates", "publisher arguments"],
  "technique": "path-sensitive symbolic evaluation of Python syntax trees; topic terms compared syntactically, callbacks fired in every order",
  "note": "All names, namespaces, shapes; both backends; all 15 subsets and orders of metadata arrival. Callbacks are taken as atomic. ROS itself is opaque.", "assumptions": ["ROS delivers messages of a topic to its subscribers", "callbacks run one at a time"]}
