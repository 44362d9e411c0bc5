#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os
S = "EigenIPC/src/"; I = "EigenIPC/include/EigenIPC/"; B = "EigenIPC/bindings/PyEigenIPC/"
SRV, CLI, MEM = S+"Server.cpp", S+"Client.cpp", S+"MemUtils.hpp"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Safe mode: tensor elements are touched only under the tensor's lock",
  "When an endpoint (server or client) was created in safe mode, every read or write call touches elements of the shared tensor only between successfully acquiring that tensor's lock in that same call and releasing it. "
  "If the lock cannot be obtained immediately the call returns false and has touched neither the shared tensor nor the caller's buffer.",
  ["schedules", "inputs", "histories"], "every schedule of concurrent endpoints, every request, every prior history of calls, all eight element-type/layout combinations",
  "The existing tests run endpoints one at a time (or with one peer) and never contend on the lock, so an access outside the critical section is invisible to them.",
  [SRV, CLI, MEM], [("data semaphore try-acquire before the transfer, release after it", "Server/Client::write, read, _acquireData, _releaseData")],
  ["return value of read/write", "shared tensor contents"])
p("C02", "Lock balance: no call leaks or over-releases the tensor's lock",
  "Every read, write, attach, detach, close, client-count query, start and stop, whether it returns or throws, leaves the tensor's lock held exactly as it was before the call; the only exceptions are the explicit acquire/release calls and a new server, which holds the lock from construction until it is first started or closed. "
  "No call but the explicit ones releases the lock without holding it, and no call waits for a lock its own endpoint still holds from its construction or from an earlier step of the same call.",
  ["histories", "fault_sequences", "inputs"], "every sequence of API calls on an endpoint, every failure of a nested operation, every exit path (return or exception)",
  "Tests exercise single success paths; a leak on an error path (or a double release after restart) only shows as a later deadlock or lost mutual exclusion.",
  [SRV, CLI, MEM], [("paired acquire/release of the data semaphore", "Server::{ctor,run,stop,getNClients,read,write}, Client::{attach,detach,read,write}")],
  ["value of the named data semaphore"])
p("C03", "Non-blocking transfers: quiet read/write never block, allocate or log",
  "On an endpoint that is running (attached) and not verbose, read and write never wait on a lock, sleep, allocate heap memory or print, whatever their outcome. "
  "In particular they make exactly one immediate attempt at the lock in safe mode and none in unsafe mode.",
  ["inputs", "schedules", "histories"], "every request and every lock state, on every path through read and write for all eight element-type/layout combinations",
  "Tests check returned data, never what effects a call had on its way; latency regressions of this kind pass every functional test.",
  [SRV, CLI, MEM, I+"Helpers.hpp"], [("one-shot acquisition and preallocated members", "Server/Client::read/write, MemUtils::acquireSemOneShot")],
  ["system calls and allocations made by read/write"])
p("C04", "Bounds: no transfer reaches outside the shared tensor",
  "For every row, column and block size, read and write touch only elements inside the shared tensor. A request whose block does not lie entirely inside the tensor (negative or too large index, or too large extent) returns false and touches nothing.",
  ["inputs"], "all row/column indices and block extents representable in the API's types, all tensor shapes, all layouts",
  "Tests use a few offsets with valid indices; they cannot enumerate the index space, and an off-by-one corrupts neighbouring memory silently.",
  [MEM, I+"Helpers.hpp"], [("bounds predicate before the block copy", "helpers::canFitTensor, MemUtils::write/read")],
  ["return value of read/write"])
p("C05", "Lifecycle gate: no access unless running or attached",
  "read and write return false, touching neither the tensor nor its lock, on a server that is not running (never started, stopped or closed) and on a client that is not attached (never attached, detached or closed). "
  "isRunning/isAttached report exactly this state after every sequence of lifecycle calls.",
  ["histories"], "every sequence of construct, run/attach, stop/detach, close, read, write calls",
  "Tests walk one linear lifecycle; misuse orders (use after close, after detach, before attach) are not tried and typically crash or touch stale mappings.",
  [SRV, CLI], [("running/attached flag tested on entry and reset on stop/detach/close", "Server::{run,stop,close}, Client::{attach,detach,close}")],
  ["return values", "isRunning/isAttached"])
p("C06", "Truthful results: true exactly when the requested block was transferred",
  "write returns true exactly when the caller's whole block was copied into the shared tensor at the requested row and column, and read returns true exactly when the whole block of the caller's shape at that position was copied out into the caller's buffer. "
  "write never modifies the caller's data, read never modifies the shared tensor, and a false result means nothing was copied.",
  ["inputs", "schedules", "histories"], "every request, lock state, endpoint state; every exit path of read and write in all eight combinations, both overloads",
  "Tests check whole-tensor transfers that succeed; swapped offsets, partial copies or a wrong result on a failure path go unnoticed.",
  [SRV, CLI, MEM], [("block copy guarded by the bounds check, result forwarded", "MemUtils::write/read, Server/Client::write/read")],
  ["return values", "caller's buffer", "shared tensor"])
p("C07", "Server uniqueness: running exactly while holding the server lock",
  "A server becomes running only after acquiring the server lock of its (namespace, name), keeps it while running, and releases it exactly once when stopped or closed; if the lock is not obtained, starting fails with an exception and the server does not report or publish itself as running. "
  "The running flag clients see is raised only inside that interval and is lowered no later than the lock is released.",
  ["schedules", "histories", "fault_sequences"], "every sequence of start/stop/close on any number of servers of one name without forced reconnection; every outcome of the lock acquisition",
  "The tests start exactly one server per name; two servers, restarts and failing acquisitions are never exercised.",
  [SRV, MEM], [("server semaphore acquired in run, released in stop", "Server::run, Server::stop"), ("published running flag", "Server::run, Server::stop")],
  ["isRunning", "running flag segment", "server semaphore"])
p("C08", "Attach handshake: metadata is published before the running flag",
  "A server raises its running flag only after its data segment and all metadata (rows, columns, element type, layout, client count) have been created, sized and written; a new server lowers a flag an earlier one left up before it is run. "
  "A client reads any metadata only after it has seen the running flag, sizes its view of the data segment from the server's published rows and columns, and reports itself attached only after the data segment is mapped.",
  ["schedules", "histories"], "every interleaving of one server's construction/start with any number of attaching clients; every restart",
  "Tests start the server well before (or with a sleep around) the client; the window in which a reordering is visible is microseconds wide.",
  [SRV, CLI], [("initialisation order in the server, wait-for-running in the client", "Server ctor/run, Client::attach, Client::_waitForServer")],
  ["running flag segment", "metadata segments"])
p("C09", "Type and layout agreement is enforced at attach",
  "Attaching to a server whose element type or memory layout differs from the client's throws, and leaves the client unattached with the client count unchanged, the data segment unmapped and every lock free. "
  "When type and layout agree, attach does not reject the server.",
  ["configurations", "inputs"], "all pairs of the eight (element type, layout) combinations",
  "Tests attach with the matching type only; silently accepting another type of the same size reinterprets bits.",
  [SRV, CLI, I+"DTypes.hpp"], [("published dtype/layout codes compared on attach", "Server::_initMetaMem, Client::_checkDType, Client::_checkMemLayout")],
  ["exception from attach", "client counter", "data semaphore"])
p("C10", "Client count is exact",
  "The shared client count is set to zero when a server is created, goes up by exactly one on each successful attach and down by exactly one on the matching detach or close; repeated attach, detach or close calls and failed attaches do not change it. "
  "Every update is a read-modify-write of the shared value made while holding the tensor's lock, and the server reports exactly the shared value.",
  ["histories", "schedules", "fault_sequences"], "every sequence of attach/detach/close on any number of clients in any interleaving",
  "Tests attach one client once; double attach, close-after-detach, failing attach and concurrent updates are not covered.",
  [SRV, CLI], [("counter increment in attach / decrement in detach under the data semaphore", "Client::attach, Client::detach, Server::getNClients")],
  ["getNClients", "client counter segment"])
p("C11", "Failures of OS primitives are never swallowed",
  "If creating, sizing or mapping a shared segment, or opening, acquiring or releasing a lock fails, the operation that needed it reports failure (throws, or returns false for a one-shot lock attempt) on every path; it never goes on to use the missing resource and never reports success.",
  ["fault_sequences", "inputs"], "every single failure of shm_open, ftruncate, mmap, sem_open, sem_wait, sem_timedwait, sem_trywait, sem_post at every place they are used, all verbosity settings",
  "The tests never inject failures of system calls; the failing branches are dead in every test run.",
  [SRV, CLI, MEM, I+"ReturnCodes.hpp"], [("return-code bits set by the wrappers and checked by their callers", "MemUtils::*, Server/Client::_init*, _acquireSem*, _releaseSem")],
  ["exceptions and return values"])
p("C12", "Close releases every owned descriptor, mapping and lock exactly once",
  "After close (or destruction) of a server, client or string tensor every file descriptor, memory mapping and lock handle that endpoint had opened has been released, each exactly once; closing again, or closing an endpoint that never attached or failed to attach, releases nothing it does not own. "
  "Handing out an endpoint to the user never causes its resources to be released behind its back.",
  ["histories", "fault_sequences"], "every sequence of construct/run/attach/stop/detach/close/destroy, including failed attaches",
  "Leaks and double closes do not change functional results in a short test; a double close hits an unrelated descriptor only under load.",
  [SRV, CLI, S+"StringTensor.cpp", MEM], [("cleanup routines with a terminated flag", "Server/Client::close, _cleanMems, _cleanMetaMem, _closeSems; MemUtils::cleanUpMem, checkMem, semClose")],
  ["/proc/self/fd, /proc/self/maps"])
p("C13", "Only the owner removes shared names",
  "A client, string-tensor client or consumer never removes a shared object, nor resizes or writes metadata other than the client count. "
  "Closing a server removes its data segment, its five metadata segments and its two locks, and an endpoint only ever removes or creates names that belong to its own (namespace, name).",
  ["histories", "configurations"], "every sequence of API calls on every endpoint kind, every name and namespace",
  "Tests do not look at the system's shared-object table; a client unlinking a name breaks only peers that open it later.",
  [SRV, CLI, MEM, S+"CondVar.cpp"], [("unlink flag per role", "Server::_unlink_data, Client::_unlink_data, ConditionVariable::close")],
  ["/dev/shm"])
p("C14", "Naming: peers agree on each shared object, and objects never collide",
  "For a given (namespace, name), server and client use the same system name, element type and size for each role (data, rows, columns, element type, layout, client count, running flag, lock), and condition-variable creators and openers agree on theirs. "
  "Every shared name depends on both the namespace and the tensor's name. Distinct roles of one tensor, including the trigger and acknowledge channels of a producer, never share a name.",
  ["inputs", "configurations"], "all namespace and name strings; all roles; all eight combinations",
  "Tests use a handful of names; they cannot show that roles agree or stay disjoint for all strings and both sides.",
  [I+"SharedMemConfig.hpp", I+"MemDefs.hpp", SRV, CLI, S+"CondVar.cpp", S+"Producer.cpp", S+"Consumer.cpp"],
  [("path construction from namespace, name and role suffix", "SharedMemConfig ctor"), ("channel basenames", "Producer/Consumer members")],
  ["/dev/shm"])
p("C15", "String tensor: no index or string length escapes its bounds",
  "For every index (negative included), number of strings and string length, string-tensor reads and writes touch only the addressed columns, inside both the staging buffer and the shared tensor. "
  "A request that does not fit (index or count out of range, or a string longer than a slot) returns false and changes nothing in shared memory.",
  ["inputs"], "all int indices, all list lengths, all string lengths, any tensor length",
  "The string tensor is exercised with short valid strings at valid indices, if at all; out-of-range inputs are undefined behaviour the tests never trigger.",
  [S+"StringTensor.cpp", I+"StringTensor.hpp"], [("range checks before encoding/decoding", "StringTensor::read/write, _fits, _encode_vec, _encode_str")],
  ["return values", "shared tensor"])
p("C16", "String tensor: encoding and decoding are inverse",
  "Writing a string and reading its slot back yields the identical byte sequence, for every string without NUL bytes that fits a slot, whatever the slot contained before: the byte-to-lane mapping used by the writer is exactly the one used by the reader. "
  "A read or write with list argument handles element k at slot index+k.",
  ["inputs", "histories"], "all byte strings without NUL up to the slot capacity, all previous slot contents, all indices",
  "A handful of ASCII strings cannot show bytes >= 0x80, full slots or stale tails round-trip.",
  [S+"StringTensor.cpp"], [("little-endian packing of 4 bytes per int, slot cleared first", "StringTensor::_encode_str/_decode_str/_encode_vec/_decode_vec")],
  ["read-back strings"])
p("C17", "Trigger/acknowledge: counters and waits follow the condition-variable discipline",
  "The trigger counter and the acknowledge counter are read or written, and their notifications sent, only while holding the mutex of the matching condition variable, and every wait is made on that condition variable with that mutex held and re-evaluates the counter after waking. "
  "Every update of a counter is followed, before its mutex is released, by a notification that wakes every waiter the update may concern: all consumers for a trigger, the producer for an acknowledgement.",
  ["schedules", "histories"], "every interleaving of one producer and any number of consumers over the counters, including spurious wake-ups",
  "Producer and consumer have no stable tests; lost wake-ups need an interleaving that a test cannot force.",
  [S+"Producer.cpp", S+"Consumer.cpp", S+"CondVar.cpp"], [("scoped lock + predicate loop + notify", "Producer::trigger/wait_ack_from, Consumer::wait/ack, ConditionVariable")],
  ["return values of wait/wait_ack_from", "counters"])
p("C18", "Trigger/acknowledge: results report exactly what happened",
  "Consumer wait returns true only when exactly one new trigger was observed since the last one it consumed, and false only on timeout; wait-and-acknowledge returns true only if the wait succeeded, the callback, run before the acknowledgement, returned true and the acknowledgement was recorded. "
  "A trigger raises the trigger counter by one, an acknowledgement raises the acknowledge counter by one, and the producer's wait for n acknowledgements returns true only when exactly n arrived since the last completed wait.",
  ["histories", "inputs", "fault_sequences"], "every callback result, every outcome of each counter access, every number of consumers, every call sequence",
  "No stable test covers producers or consumers; masked failures need a failing callback or counter access.",
  [S+"Producer.cpp", S+"Consumer.cpp"], [("counter differences and failure accumulation", "Consumer::_check_trigger_received/wait_and_ack/_acknowledge, Producer::_increment_trigger/_check_ack_counter")],
  ["return values"])
p("C19", "Bounded waits use a deadline of now plus the requested timeout",
  "A wait given a positive timeout never uses an unbounded wait and uses an absolute deadline computed from the current time of the right clock plus exactly the requested amount, with seconds and nanoseconds normalised; starting or creating a server bounds its lock acquisition by the configured timeout the same way. "
  "A timeout expiry is reported as such (false or exception), never as success.",
  ["inputs", "schedules"], "all timeout values, all current times, both condition-variable and semaphore waits",
  "Timeouts depend on the clock and on contention; tests never let one expire.",
  [MEM, S+"CondVar.cpp", S+"Producer.cpp", S+"Consumer.cpp"], [("deadline computation", "MemUtils::semTimedWait, ConditionVariable::timedwait/timedwait_for, Producer::_wait, Consumer::_wait")],
  ["return values"])
p("C20", "Python factories build what was asked for",
  "For every element type and layout the Python server and client factories construct the endpoint of exactly that type and layout and forward every argument (shape, name, namespace, verbosity, safety, forced reconnection) unchanged to the parameter of the same meaning; an unsupported type or layout raises. "
  "The keyword and the positional form of each Python constructor bind the same parameters as the C++ constructor, and the type-conversion helpers map each element type to the NumPy type of the same C++ type.",
  ["configurations", "inputs"], "all element types x layouts x argument values",
  "The stable Python tests use few of the combinations, with equal flags, so swapped arguments or a wrong case go unnoticed.",
  [B+"src/PyServer.cpp", B+"src/PyClient.cpp", B+"src/PyStringTensor.cpp", B+"src/PyProducer.cpp", B+"src/PyConsumer.cpp", B+"PyEigenIPC.cpp"],
  [("switch over layout and dtype", "PyServer::ServerFactory, PyClient::ClientFactory"), ("pybind11 argument lists", "bind*Factory, declare_StringTensor*")],
  ["getScalarType, type of the wrapped object"])
p("C21", "Python transfers honour the array's type, shape, strides and writability",
  "A Python read or write uses the NumPy array's own data pointer, shape and strides (in elements, per layout), checks that its element type equals the tensor's before any transfer (raising otherwise) and that it is two-dimensional of a coherent layout and of strides that are whole elements (returning false otherwise). "
  "read never stores into an array that is not writable nor into a converted copy, a list given to a string-tensor read holds what was read, write never modifies the array, and each Python method calls the operation of the same name with row and column in order and returns its result.",
  ["inputs", "configurations"], "all arrays (dtype, ndim, strides, flags), all rows/columns, all eight typed classes and both wrappers",
  "Tests pass freshly allocated contiguous arrays of the right type; views, slices, read-only or wrong-type arrays are rare inputs.",
  [B+"src/PyServer.cpp", B+"src/PyClient.cpp", B+"src/PyEigenIPCUtils.hpp"], [("buffer checks and stride conversion", "CheckInputBuffer, ToEigenStrides, bindServerT/bindClientT read/write lambdas, bind_*Wrapper")],
  ["array contents", "exceptions"])
p("C22", "Every native method the Python layer calls exists with that signature",
  "Each attribute, constructor keyword and method that the pure-Python wrappers and the ROS bridge use on native endpoint, string-tensor, journal and enum objects is provided by the native bindings with a compatible number and names of arguments and for the right object kind. "
  "Every method bound for a class takes an instance of that same class.",
  ["programs", "configurations"], "every call site in the wrappers and the bridge, every object kind that can reach it, every bound method",
  "The wrappers and the bridge are not covered by stable tests; Python resolves these names only when the line runs.",
  [B+"wrappers/shared_data_view.py", B+"wrappers/shared_tensor_dict.py", B+"extensions/ros_bridge/to_ros.py", B+"extensions/ros_bridge/from_ros.py", B+"src/PyServer.cpp", B+"src/PyClient.cpp", B+"src/PyStringTensor.cpp", B+"PyEigenIPC.cpp"],
  [("pybind11 class definitions", "bind* / declare_*"), ("call sites", "wrappers/*.py, extensions/ros_bridge/*.py")],
  ["AttributeError/TypeError at call time"])
p("C23", "Python data views move the requested block in the requested direction",
  "In the Python shared-data wrapper every write or synchronise-out stores the mirror block at the given row/column into shared memory, every read or synchronise-in loads exactly that block from shared memory into the mirror (and from there to the caller), for the same rows, columns and offsets on both sides. "
  "The boolean result is that of the underlying transfer, a retrying call returns only after success (or when the endpoint stopped), and the dictionary wrapper places each named block at the sum of the preceding blocks' dimensions, for writing and reading alike.",
  ["inputs", "histories"], "all rows, columns, shapes, directions, retry modes, names and dimension lists",
  "The wrappers have no stable tests; a swapped direction or offset is only visible with specific non-square data.",
  [B+"wrappers/shared_data_view.py", B+"wrappers/shared_tensor_dict.py"], [("slice/offset pairs around the native read/write", "SharedTWrapper.{write,read,synch,synch_all,...}, SharedTensorDict.{write,get}")],
  ["mirror and shared contents"])
p("C24", "ROS bridge: type codes, topics and metadata agree on both sides",
  "For every supported element type the bridge's encoded type code decodes to the same type, unsupported types and codes raise, and each message field (data, rows, columns, type) is published and subscribed under the same topic name, with distinct topics per field. "
  "The subscriber builds its array and its server only after all metadata arrived, with rows, columns and type taken from the matching fields, and a bridge is only reported running once its server runs under the bridged name and namespace.",
  ["inputs", "histories", "configurations"], "all element types and codes, all names/namespaces, all message arrival orders, both backends",
  "ROS is not installed for the tests; nothing exercises this code.",
  [B+"extensions/ros_bridge/abstractions.py", B+"extensions/ros_bridge/defs.py", B+"extensions/ros_bridge/from_ros.py", B+"extensions/ros_bridge/to_ros.py", B+"extensions/ros_bridge/ros1_utils.py", B+"extensions/ros_bridge/ros2_utils.py"],
  [("encode/decode tables, naming helper, metadata callbacks", "RosPublisher/RosSubscriber, NamingConventions, FromRos/ToRos")],
  ["topics, created server"])
p("C25", "Return codes are independent, combinable and described",
  "All basic return codes are pairwise distinct single bits; adding a code makes exactly that code present and keeps the others, subtracting removes exactly that code, resetting clears everything, and the membership test is true exactly when all bits of the queried code are present. "
  "The textual description of a combined code lists each present basic code by its own name, and nothing else.",
  ["inputs"], "all 64-bit code combinations and all basic codes",
  "No test looks at codes; aliased or undescribed codes show only in error reports of rare failures.",
  [I+"ReturnCodes.hpp"], [("bit constants, operators, description table", "ReturnCode, operator+, operator-, isin, getDescription, getDescriptions")],
  ["toString/getDescriptions of failures"])
p("C26", "Journal: fatal reports always throw, others never do",
  "Logging an exception-level message with the throw request always throws a runtime error carrying the class, the method and the message; every other combination of level and request prints the message exactly once and as given with its class and method and returns normally. "
  "Fatal failure reports raised by endpoints always reach that throwing form, independently of verbosity.",
  ["inputs", "configurations"], "all levels x throw flags, both member and static form, all messages",
  "Error reports are only made on failure paths the tests do not take.",
  [I+"Journal.hpp", MEM], [("level dispatch", "Journal::log (both)"), ("fatal helper", "MemUtils::failWithCode")],
  ["exceptions, standard output"])
p("C27", "Tensor views address exactly the requested block",
  "A view created over a block of a tensor aliases exactly that block's elements in place (start, extents and strides agree with the tensor's layout), so element (i, j) of the view is element (row+i, col+j) of the tensor. "
  "If the block does not lie inside the tensor, creating the view throws and no view is returned.",
  ["inputs"], "all tensor shapes, offsets, extents, element types and both layouts",
  "Tests create a few views; layouts and asymmetric shapes multiply beyond any sample.",
  [I+"Helpers.hpp"], [("bounds check, start pointer and stride computation", "helpers::createViewFrom")],
  ["element addresses"])
p("C28", "Concurrent histories of whole-tensor transfers are linearizable in safe mode",
  "In safe mode, every read returns a tensor state produced by some sequence of completed writes consistent with real-time order: no torn or stale block is ever returned, across processes and on weakly ordered hardware.",
  ["schedules", "histories"], "all interleavings of reads and writes of any number of processes",
  "Needs every interleaving of several processes through shared memory.",
  [SRV, CLI, MEM], [("data semaphore", "Server/Client::read/write")], ["returned data"])
p("C29", "A crashed peer never blocks a later restart forever",
  "If any endpoint process dies at any point, a new server created with forced reconnection becomes usable, and new clients attach to it, never to the dead one's state.",
  ["crash_points", "histories"], "every crash point of every process",
  "Crash points inside critical sections cannot be sampled meaningfully by unit tests.",
  [SRV, MEM], [("forced reconnection", "MemUtils::acquireSemTimeout, checkMem")], ["attach after restart"])
p("C30", "Transfers complete within a bounded time independent of load",
  "Reads and writes of a fixed-size block complete in bounded time, suitable for real-time loops, independently of the number of clients and of what they do.",
  ["schedules", "configurations"], "all schedules and loads",
  "Wall-clock bounds depend on scheduler and hardware.",
  [SRV, CLI], [("one-shot lock attempts", "read/write")], ["latency"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
