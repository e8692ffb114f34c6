#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one tuple per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- runtime guarantees
p("C01", "Termination detection fires exactly when an epoch's work is done",
  "For every epoch, rooted or collective, the actions registered for its termination run exactly once on each rank that registered them, and never before every message sent in the epoch (directly or as a consequence of handlers run in it) has been processed. Once no work remains in the epoch and every participant has finished it, termination is eventually reported to every participant, whatever the order in which messages and control messages are delivered.",
  ["schedules","histories"], "all causal trees of messages, all interleavings of application and control message delivery across ranks, rooted and collective epochs, nested epochs",
  "The termination tests need magistrate and MPI and are not in the runnable suite; even upstream they sample a few schedules of a network that nearly always delivers promptly, while early or lost termination needs specific overtakings of control messages by application messages.",
  ["src/vt/termination/termination.cc","src/vt/termination/term_state.cc","src/vt/termination/dijkstra-scholten/ds.cc","src/vt/termination/term_action.cc"],
  [("four-counter wave over the spanning tree","src/vt/termination/termination.cc propagateEpoch/propagateEpochExternal"),("Dijkstra-Scholten engagement tree with acks","src/vt/termination/dijkstra-scholten/ds.cc")],
  ["termination actions run by TerminationDetector::addAction","produce/consume/finishedEpoch/onWaveControl message exchange"])
p("C02", "Every active message is delivered exactly once, to its target, intact",
  "A message sent to a rank runs its handler exactly once, on that rank, with the payload and metadata (sender, epoch, tag, priority) that the sender gave it, for every payload size including those sent in several pieces. No handler runs for a message that was not sent, and none is lost while the system keeps making progress.",
  ["schedules","inputs"], "all message sizes around the small/large and chunking thresholds, all completion orders of sends and receives",
  "Needs a multi-rank run under adversarial delivery and completion order; the runnable suite contains no messaging test.",
  ["src/vt/messaging/active.cc","src/vt/messaging/active.impl.h","src/vt/messaging/request_holder.h","src/vt/messaging/envelope"],
  [("send/receive of envelope-carrying buffers over MPI tags","src/vt/messaging/active.cc sendMsgMPI/tryProcessIncomingActiveMsg/handleChunkedMultiMsg")],
  ["handler invocations on the receiving rank"])
p("C03", "A broadcast reaches every rank exactly once",
  "A broadcast from any rank runs the handler exactly once on every rank of the job (excluding the sender only when the caller asked for that). The tree used to carry it spans all ranks: every rank except the root has exactly one parent, parent and child views agree on all ranks, and there is no cycle, for any number of ranks and any branching factor.",
  ["configurations","inputs"], "all job sizes, all ranks, all roots and branching factors (within the stated bounds), all delivery orders",
  "Tests run with one or a few job sizes; a malformed tree for particular sizes or ranks silently drops or duplicates work.",
  ["src/vt/collective/tree/tree.cc","src/vt/collective/tree/tree.h","src/vt/group/global/group_default.cc","src/vt/messaging/active.impl.h"],
  [("parent/children computation","src/vt/collective/tree/tree.cc"),("default group broadcast down the tree","src/vt/group/global/group_default.cc")],
  ["Tree::getParent/getChildren/isRoot/foreachChild","handler executions"])
p("C04", "A reduction yields the combination of every rank's contribution, once",
  "When every participant contributes to a reduction, the target handler runs exactly once with the operator applied over all contributions, each counted exactly once, whatever order contributions arrive in. Concurrent and successive reductions on the same scope are never mixed up, including when some ranks run ahead.",
  ["schedules","inputs","histories"], "all arrival orders of local and child contributions, all contribution values, overlapping reductions with different stamps",
  "A reduction combined early, twice, or across sequence numbers only shows under particular overtakings between ranks; no reduction test is in the runnable suite.",
  ["src/vt/collective/reduce/reduce.cc","src/vt/collective/reduce/reduce.impl.h","src/vt/collective/reduce/reduce_state_holder.cc","src/vt/collective/reduce/reduce_manager.cc"],
  [("per-stamp state with contribution counting","src/vt/collective/reduce/reduce.impl.h"),("combination of message chain","src/vt/collective/reduce/operators")],
  ["reduction target handler invocation and its argument"])
p("C05", "No rank passes a barrier before all ranks have entered it",
  "A named or unnamed barrier releases a rank (returns or runs its continuation) only after every rank has entered that same barrier, and releases every rank exactly once after the last one enters. Successive barriers never release one another's participants.",
  ["schedules","histories"], "all entry orders and control message delivery orders, repeated and named barriers",
  "Premature release needs one rank to lag behind two barriers; tests rarely produce that timing.",
  ["src/vt/collective/barrier/barrier.cc","src/vt/collective/barrier/barrier.h"],
  [("up/down barrier waves on the spanning tree","src/vt/collective/barrier/barrier.cc")],
  ["Barrier::barrier return / Barrier::contBarrier continuation"])
p("C06", "Collection elements receive every message, wherever they live",
  "A message to a collection element (by send or by collection broadcast) runs exactly once on that element, even when the element migrates while messages to it are in flight, and is never run on a stale copy. Migration keeps the element's state and leaves exactly one live copy in the system.",
  ["schedules","histories"], "all interleavings of sends, broadcasts, migrations and location updates",
  "Requires multi-rank runs where messages overtake migrations; not in the runnable suite and not sampled upstream systematically.",
  ["src/vt/vrt/collection/manager.impl.h","src/vt/topos/location/location.impl.h","src/vt/vrt/collection/holders"],
  [("routing by location manager and buffering of early messages","src/vt/topos/location/location.impl.h"),("migrate in/out of holders","src/vt/vrt/collection/manager.impl.h")],
  ["element handler invocations, element holder contents"])
p("C07", "Every scheduled unit of work runs exactly once",
  "Each unit of work enqueued on the scheduler is executed exactly once, with units of higher priority taken before lower ones among those waiting when priorities are enabled and in arrival order when they are not; nothing is executed that was not enqueued. Idle/work counts agree with the units outstanding, and a run-until-condition call returns once its condition holds.",
  ["histories","schedules"], "all sequences of enqueues (including from running units) with arbitrary priorities",
  "Lost or repeated work depends on interleaving of nested scheduler calls; no scheduler test is in the runnable suite.",
  ["src/vt/scheduler/scheduler.cc","src/vt/scheduler/priority_queue.h","src/vt/scheduler/queue.h","src/vt/scheduler/prioritized_work_unit.h"],
  [("work queue","src/vt/scheduler/scheduler.impl.h enqueue"),("scheduler loop","src/vt/scheduler/scheduler.cc runNextUnit/runSchedulerWhile")],
  ["executed actions, Scheduler::workQueueSize, isIdle"])
p("C08", "Messages to an object group reach the right object on the right rank",
  "A message, invocation or broadcast addressed to an object group instance runs the chosen member function on the instance that was registered for that proxy on the addressed rank, exactly once per addressee. Destroying or replacing an instance never redirects messages meant for another group.",
  ["histories","inputs"], "all registries of object groups, all proxies and ranks, all orders of registration and sends",
  "Needs the runtime; the runnable suite does not include object groups.",
  ["src/vt/objgroup/manager.cc","src/vt/objgroup/manager.impl.h","src/vt/objgroup/proxy/proxy_objgroup.impl.h","src/vt/objgroup/holder"],
  [("proxy to instance dispatch tables","src/vt/objgroup/manager.cc")],
  ["member function invocations"])
p("C09", "A nested handler or task leaves the surrounding context as it found it",
  "While a unit of work runs, the visible context (sender, current epoch, current task, element, termination accounting) is the one captured for it, and when it ends, including when it suspends and resumes or runs nested scheduling, the surrounding context is exactly what it was before. Epoch push and pop on the epoch stack are properly nested.",
  ["histories","schedules"], "all nestings of units of work and of explicit epoch pushes and pops",
  "Tests execute shallow nestings; a leaked context only shows with particular nesting of handlers and epoch operations.",
  ["src/vt/runnable/runnable.cc","src/vt/context/context.cc","src/vt/context/runnable_context","src/vt/messaging/active.cc"],
  [("begin/end of runnable contexts","src/vt/runnable/runnable.cc"),("epoch stack","src/vt/messaging/active.impl.h pushEpoch/popEpoch")],
  ["theContext()->getTask/getFromNodeCurrentTask, theMsg()->getEpoch"])
p("C10", "A callback fires on its target with the sent value, the right number of times",
  "Sending to a callback triggers exactly the continuation it was built with (function, handler, object group or collection member, broadcast or send), on the rank that should run it, with the value given. A callback that expects a fixed number of signals fires each registered listener for each signal and is retired after its count is reached, never earlier or later.",
  ["histories","inputs"], "all kinds of callback, all signal counts and orders of signals and listeners",
  "Pipe tests need the runtime and sample one signal count.",
  ["src/vt/pipe/pipe_manager.impl.h","src/vt/pipe/state/pipe_state.cc","src/vt/pipe/signal/signal_holder.impl.h","src/vt/pipe/callback"],
  [("pipe state reference counting","src/vt/pipe/state/pipe_state.cc"),("listener delivery","src/vt/pipe/signal/signal_holder.impl.h")],
  ["listener invocations, PipeState automatic retirement"])
p("C11", "A group message reaches each member of the group exactly once, and no one else",
  "A message sent to a group runs once on each rank of the group and on no other rank, for every rooted group described by a range, stride or list of ranks and every collectively formed group. This holds for any membership, including ranks that are far apart or sparse.",
  ["inputs","configurations"], "all memberships within the bound, all job sizes, all creating ranks",
  "Which ranks are skipped or repeated depends on arithmetic over the membership description; tests use one or two fixed groups, and none is in the runnable suite.",
  ["src/vt/group/group_manager.cc","src/vt/group/rooted/group_info_rooted.cc","src/vt/group/collective/group_info_collective.cc"],
  [("recursive splitting of the region over members","src/vt/group/rooted/group_info_rooted.cc"),("collective tree construction","src/vt/group/collective/group_info_collective.cc")],
  ["handler executions per rank"])
p("C12", "Load balancing neither loses nor duplicates objects and applies its decisions",
  "Every strategy assigns each migratable object present before a rebalance to exactly one valid rank, leaves non-migratable objects in place, and produces the same set of objects afterwards. Strategies that promise to reduce imbalance never increase the maximum rank load as measured by the load model they were given.",
  ["inputs","schedules"], "all distributions of object loads over ranks, all strategies, all delivery orders",
  "The interesting inputs (ties, empty ranks, all-equal or zero loads) are rare; LB tests need the runtime.",
  ["src/vt/vrt/collection/balance/baselb","src/vt/vrt/collection/balance/greedylb","src/vt/vrt/collection/balance/rotatelb","src/vt/vrt/collection/balance/lb_invoke","src/vt/vrt/collection/balance/temperedlb"],
  [("assignment computation","src/vt/vrt/collection/balance/greedylb/greedylb.cc"),("transfer normalisation","src/vt/vrt/collection/balance/baselb/baselb.cc")],
  ["Reassignment returned by a strategy"])
p("C13", "One-sided handles read and write exactly the addressed remote elements",
  "A put through a one-sided handle changes exactly the addressed range of the target's array, a get returns what is stored there, and atomic accumulates apply exactly once, for every offset, length and rank. Handles of distinct objects never alias.",
  ["inputs","schedules"], "all offsets, sizes and targets within the registered extents",
  "Needs MPI one-sided communication across ranks; not in the runnable suite.",
  ["src/vt/rdmahandle/holder.impl.h","src/vt/rdmahandle/handle.node.impl.h","src/vt/rdmahandle/manager.cc","src/vt/rdma"],
  [("window offset arithmetic and locking","src/vt/rdmahandle/holder.impl.h")],
  ["values returned by get/rget, memory after put/accum"])
p("C14", "Scatter delivers to each rank its own slice of the root's buffer",
  "A scatter from a root delivers to each rank exactly the bytes the root's layout function assigned to that rank, once, for any element sizes including empty slices and any number of ranks. The packed layout never overlaps slices or reads past its end.",
  ["inputs","configurations"], "all per-rank sizes within the bound, all job sizes and roots",
  "Scatter tests use one uniform size; errors in the recursive packing need uneven sizes and particular tree shapes.",
  ["src/vt/collective/scatter/scatter.cc","src/vt/collective/scatter/scatter.impl.h"],
  [("recursive packing in tree order","src/vt/collective/scatter/scatter.cc applyScatterRecur")],
  ["scatter handler arguments on each rank"])
p("C15", "An epoch waits for its predecessors and children before it is released or ends",
  "Work held back for an epoch dependency is run exactly once and only after every epoch it depends on has terminated (or been released). A parent epoch does not terminate before its child epochs, and the epoch graph reported for debugging contains exactly the recorded parent-child relations.",
  ["histories"], "all orders of adding successors, releases, and terminations over small epoch graphs",
  "Dependency bugs need particular orders of release and termination; tests for them need the runtime.",
  ["src/vt/termination/epoch_dependency.cc","src/vt/termination/graph/epoch_graph.cc","src/vt/messaging/active.cc","src/vt/termination/termination.cc"],
  [("successor/predecessor bookkeeping","src/vt/termination/epoch_dependency.cc"),("graph merge and detection of edges","src/vt/termination/graph/epoch_graph.cc")],
  ["EpochDependency successor queries, EpochGraph contents, release actions"])

# ---------------------------------------------------------------- identifiers
p("C16", "Packed bit fields round-trip and never disturb their neighbours",
  "Writing a value to a bit field and reading it back yields that value truncated to the field's width, for every offset, width, word type and previous content. All bits outside the field keep their value.",
  ["inputs"], "all 2^64 previous words, all values, all offset/width pairs that fit the word, static and dynamic forms",
  "The unit tests check a dozen fixed constants; masks and shifts at the word boundary fail only for particular widths, offsets and prior contents.",
  ["src/vt/utils/bits/bits_packer.h","src/vt/utils/bits/bits_packer.impl.h"],
  [("mask and shift arithmetic","src/vt/utils/bits/bits_packer.impl.h")],
  ["BitPacker::setField/getField/setFieldDynamic/getFieldDynamic/boolSetField/boolGetField"])
p("C17", "Epoch identifiers encode their attributes without loss or collision",
  "An epoch identifier reports exactly the kind (rooted or collective), category, node and sequence it was made from, two epochs made from different attributes have different identifiers, and successive epochs of a kind never collide. The special epochs (none, any) are never produced for a real epoch.",
  ["inputs"], "all nodes, sequence numbers and categories that fit their fields",
  "Tests use a handful of small values; overlapping fields show only for high sequence numbers or particular node/category combinations.",
  ["src/vt/epoch/epoch_manip.cc","src/vt/epoch/epoch_manip.h","src/vt/epoch/epoch.h","src/vt/epoch/epoch_impl_type.h"],
  [("bit layout of epochs","src/vt/epoch/epoch.h"),("construction and queries","src/vt/epoch/epoch_manip.cc")],
  ["EpochManip::makeRootedEpoch/generateEpoch/isRooted/node/category/seq"])
p("C18", "Epochs in use are unique and terminated-ness is remembered correctly",
  "No epoch is handed out while it is still in use, a terminated epoch is reported terminated from the moment it is closed until it is reissued, and an epoch still in use is never reported terminated. This holds for any order of opening and closing epochs.",
  ["histories"], "all sequences of allocate and terminate operations on an epoch window, any closing order",
  "Windows with holes arise only from out-of-order terminations; tests close epochs in order.",
  ["src/vt/epoch/epoch_window.cc","src/vt/epoch/epoch_window.h","src/vt/epoch/epoch_manip.cc"],
  [("terminated set and free-list","src/vt/epoch/epoch_window.cc")],
  ["EpochWindow::allocateNewEpoch/setEpochTerminated/isTerminated"])
p("C19", "The interval set behaves as a mathematical set of integers",
  "After any sequence of insertions (single values or intervals, of values not yet present) and removals, the compressed integer set contains exactly the values inserted and not removed, its size and interval count describe that set in the fewest maximal intervals, and its iteration visits each value once in order.",
  ["histories","inputs"], "all operation sequences within the bound over arbitrary 64-bit values, including adjacent, overlapping and extreme values",
  "Joining and splitting of intervals depends on adjacency patterns and on cached lookup hints left by earlier operations.",
  ["src/vt/termination/interval/integral_set.h","src/vt/termination/interval/integral_set.h","src/vt/termination/interval/interval.h","src/vt/termination/interval/strong_integral_set.h"],
  [("ordered map of maximal intervals with hint","src/vt/termination/interval/integral_set.h")],
  ["IntegralSet::insert/insertInterval/erase/contains/size/compressedSize/range"])
p("C20", "Handler identifiers encode and return their parts exactly",
  "A handler identifier built from its parts (auto or not, object group, functor, trace enabled, collection member, identifier and control) returns exactly those parts, and changing one part leaves all others unchanged. Distinct registrations yield distinct identifiers.",
  ["inputs"], "all combinations of flags, all control and identifier values that fit their fields",
  "Overlapping fields or sign extension show only for particular high values or flag combinations.",
  ["src/vt/handler/handler.h","src/vt/handler/handler.cc"],
  [("bit layout of handlers","src/vt/handler/handler.h")],
  ["HandlerManager::makeHandler/getHandlerIdentifier/getHandlerControl/isHandlerAuto..."])
p("C21", "Object group and collection proxies encode and return their parts exactly",
  "Proxy identifiers report exactly the identifier, node, collective/rooted, migratable and collection attributes they were built with, no two different descriptions share a proxy, and changing one attribute preserves the others.",
  ["inputs"], "all identifiers, nodes and attribute flags that fit their fields",
  "Tests use node 0/1 and small identifiers only.",
  ["src/vt/objgroup/proxy/proxy_bits.cc","src/vt/vrt/proxy/proxy_bits.h","src/vt/vrt/proxy/proxy_bits.cc","src/vt/vrt/collection/proxy_builder/elm_proxy_builder.cc"],
  [("bit layouts","src/vt/objgroup/proxy/proxy_bits.h"),("virtual proxy builder","src/vt/vrt/proxy/proxy_bits.cc")],
  ["ObjGroupProxy::create/getID/getNode/isCollective, VirtualProxyBuilder"])
p("C22", "Load-balancing element identifiers encode their kind, home and number exactly",
  "An element identifier (collection element, object group instance, or bare handler) returns the kind, migratability, home node, sequence number or object group it was created for, and elements created from different descriptions never share an identifier.",
  ["inputs"], "all sequence numbers, nodes and proxies that fit their fields",
  "Only particular sequence/node/proxy combinations expose overlapping fields.",
  ["src/vt/elm/elm_id_bits.cc","src/vt/elm/elm_id_bits.h","src/vt/elm/elm_id.cc"],
  [("bit layout by kind","src/vt/elm/elm_id_bits.h")],
  ["ElmIDBits::create*/isMigratable/getNode/getObjGroupProxy"])
p("C23", "Group and pipe identifiers encode and return their parts exactly",
  "Group and pipe (callback) identifiers return the identifier, creating node, collective, static, persistent, send-back and typing attributes they were made from, and ones made from different attributes differ.",
  ["inputs"], "all identifiers, nodes and flags that fit their fields",
  "Only small identifiers and nodes are ever used by tests.",
  ["src/vt/group/id/group_id.cc","src/vt/group/id/group_id.h","src/vt/pipe/id/pipe_id.cc","src/vt/pipe/id/pipe_id.h"],
  [("bit layouts","src/vt/group/id/group_id.h, src/vt/pipe/id/pipe_id.h")],
  ["GroupIDBuilder, PipeIDBuilder"])
p("C24", "RDMA handles, channel keys and event identifiers are unambiguous",
  "RDMA handle and event identifiers return exactly the node, identifier and attributes (handler kind, sized, collective, local) they were created with and leave other fields unchanged, for every value that fits. Identifiers for different objects are never equal.",
  ["inputs"], "all nodes, identifiers, attribute flags and previous contents",
  "Tests use tiny identifiers on one or two nodes.",
  ["src/vt/rdma/rdma_handle.h","src/vt/rdma/rdma_types.cc","src/vt/event/event_id.cc","src/vt/event/event_id.h"],
  [("bit layouts","src/vt/rdma/rdma_handle.h, src/vt/event/event_id.h")],
  ["RDMAHandleManagerType setters/getters, EventIDManager::makeEventIdentifier/getEventNode/getEventIdentifier"])
p("C25", "Message priorities nest: a level never disturbs or outranks its parents",
  "Setting the priority of one level leaves every other level's priority unchanged and reads back exactly; comparing encoded priorities compares level by level from the outermost; and a message's priority survives being stored in and read from its envelope.",
  ["inputs"], "all levels, all priority values and previous words",
  "Shifts for the outermost and innermost level differ only at word boundaries.",
  ["src/vt/scheduler/priority_manip.cc","src/vt/scheduler/priority_manip.h","src/vt/scheduler/priority.h"],
  [("level offsets","src/vt/scheduler/priority_manip.cc")],
  ["PriorityManip::setPriority/getPriority"])
p("C26", "Message envelopes keep every attribute independent and exact",
  "Every attribute of a message envelope (type flags, destination, handler, reference count, group, epoch, tag, priority, put/packed data) reads back as it was set and setting one never alters another, for all envelope kinds. Packing the size and initial state of a fresh envelope is well defined whatever memory it is built in.",
  ["inputs","histories"], "all attribute values, all orders of setting them, arbitrary prior memory contents",
  "Interference between flag bits requires specific combinations of message types.",
  ["src/vt/messaging/envelope/envelope_base.h","src/vt/messaging/envelope/envelope_set.h","src/vt/messaging/envelope/envelope_get.h","src/vt/messaging/envelope/envelope_type.h","src/vt/messaging/envelope/envelope_extended_util.impl.h"],
  [("flag bits and fields","src/vt/messaging/envelope")],
  ["envelope get/set functions"])

# ---------------------------------------------------------------- data structures
p("C27", "Dense indices behave as value tuples: exact packing, total order, full iteration",
  "A multi-dimensional index packed to its unique bits and rebuilt is the same index whenever its coordinates fit, distinct in-range indices have distinct packed forms, comparison is a strict total order consistent with equality and hashing, and iterating an index range visits each index of the box exactly once.",
  ["inputs"], "all coordinates and extents that fit, one to several dimensions",
  "Tests sample a few indices; packing and carry logic fail at field boundaries and for uneven extents.",
  ["src/vt/topos/index/dense/dense_array.h","src/vt/topos/index/dense/dense_array.impl.h"],
  [("uniqueBits packing, foreach carry, comparison","src/vt/topos/index/dense/dense_array.impl.h")],
  ["DenseIndexArray uniqueBits/uniqueBitsToIndex/operator</foreach/getSize"])
p("C28", "Default mappings place every index on a valid rank, evenly",
  "Linearising an index of a box is a bijection onto 0..size-1. The block mapping assigns each index to a rank in range, in contiguous non-decreasing blocks whose sizes differ by at most one, and round-robin assigns linear position modulo the number of ranks. The default mapping of an unbounded collection gives every index, negative ones included, a valid rank.",
  ["inputs","configurations"], "all extents, indices and rank counts within the bound, including more ranks than elements",
  "Remainder handling fails only for particular size/rank combinations; tests use divisible ones.",
  ["src/vt/topos/mapping/dense/dense.h","src/vt/topos/mapping/dense/dense.impl.h","src/vt/topos/mapping/dense/unbounded_default.impl.h"],
  [("linearisation and block arithmetic","src/vt/topos/mapping/dense/dense.impl.h")],
  ["dense*BlockMap, dense*RoundRobinMap, linearizeDenseIndex*"])
p("C29", "The message allocator never hands out overlapping or undersized memory",
  "Every allocation returns memory of at least the requested size plus the requested spare room, disjoint from every other live allocation, whose recorded sizes can be read back; freeing returns it to where it came from. Growing an allocation in place never lets it exceed the memory it owns.",
  ["histories","inputs"], "all sequences of allocate, grow and free with arbitrary sizes and spare room, including around pool size classes and pool growth",
  "The size-class boundaries and growth of the pool are reached only by particular sizes and many live buffers.",
  ["src/vt/pool/pool.cc","src/vt/pool/pool.h","src/vt/pool/static_sized/memory_pool_equal.impl.h","src/vt/pool/header/pool_header.cc"],
  [("size-class choice","src/vt/pool/pool.cc getPoolType"),("slot stack","src/vt/pool/static_sized/memory_pool_equal.impl.h"),("size header","src/vt/pool/header/pool_header.cc")],
  ["Pool::alloc/dealloc/remainingSize/allocatedSize/tryGrowAllocation"])
p("C30", "A managed message lives exactly as long as it is referenced",
  "A message held through managed pointers is freed exactly once, when the last reference goes away, and never while a reference remains, for every sequence of copies, moves, assignments, conversions, releases and swaps. The reported reference count equals the number of references.",
  ["histories"], "all sequences of pointer operations over several pointers and messages",
  "Over- or under-counting needs specific sequences such as self-assignment or moving into a non-empty pointer.",
  ["src/vt/messaging/message/smart_ptr.h","src/vt/messaging/message/refs.impl.h","src/vt/messaging/message/message.h","src/vt/messaging/envelope/envelope_ref.h"],
  [("intrusive reference count","src/vt/messaging/message/refs.h, src/vt/messaging/message/smart_ptr.h")],
  ["MsgPtr copy/move/assign, envelope reference count, deallocation"])
p("C31", "The circular buffer is an exact bounded FIFO",
  "Elements leave the circular buffer in the order they entered, none lost, repeated or altered, and its size, free count, empty and full answers are exact, for every sequence of pushes (when not full) and pops (when not empty) and any wrap-around position.",
  ["histories","inputs"], "all push/pop sequences within the bound, all element values, several capacities",
  "The one test fills and drains once; wrap-around states are not sampled.",
  ["src/vt/utils/container/circular_buffer.h"],
  [("head/tail arithmetic","src/vt/utils/container/circular_buffer.h")],
  ["CircularBuffer push/emplace/pop/size/numFree/empty/full"])
p("C32", "The wrapping counter stays in range and steps cyclically",
  "A ranged counter always holds a value of its closed range, starts at the low bound, and each increment or decrement moves to the next value in cyclic order; pre and post forms return the new and the old value respectively.",
  ["inputs","histories"], "all bounds of the value type including its extremes, all operation sequences within the bound",
  "Wrap-around at numeric limits is not sampled by tests.",
  ["src/vt/utils/adt/ranged_counter.h"],
  [("wrapping increment and decrement","src/vt/utils/adt/ranged_counter.h")],
  ["RangedCounter ++/--/get"])
p("C33", "The approximate histogram never loses or invents samples",
  "After any sequence of additions and merges the histogram's total count, minimum and maximum are exact, its centroids are sorted, never more than the configured number, and their counts add up to the total. Quantiles stay within the minimum and maximum and, while no samples were merged together, counting queries are exact.",
  ["histories","inputs"], "all sample values and multiplicities, all sequences of add/merge within the bound",
  "Tests add one fixed data set; collapsing of centroids depends on value order and ties.",
  ["src/vt/utils/adt/histogram_approx.h"],
  [("centroid insertion, collapse and merge","src/vt/utils/adt/histogram_approx.h")],
  ["HistogramApprox add/mergeIn/getCount/getMin/getMax/getCentroids/quantile/estimateNumValues"])
p("C34", "Group regions describe the same set of ranks under every operation",
  "The size, membership test, head, tail, copy, list form and splitting (in two or in N) of a rank region, whether given as a strided range, a list or a shallow list, all agree on one sequence of ranks: splitting partitions it with nothing lost or repeated and no part empty, and tail drops exactly the head.",
  ["inputs"], "all bounds, strides, list contents and split counts within the bound",
  "Strides that do not divide the extent and starts that are not multiples of the stride are never tried by tests.",
  ["src/vt/group/region/group_range.cc","src/vt/group/region/group_list.cc","src/vt/group/region/group_shallow_list.cc","src/vt/group/region/group_region.h"],
  [("range/list arithmetic","src/vt/group/region")],
  ["Region::getSize/contains/makeList/head/tail/split/splitN/copy"])
p("C35", "Time triggers fire when due, at their period, until removed",
  "A registered trigger fires when more than its period has elapsed since it last fired (or was registered), not before, and at most once per progress call that advances time; removing it guarantees it never fires again, and the remaining triggers are unaffected. Triggers requested to fire immediately fire once at registration.",
  ["histories","inputs"], "all periods and non-decreasing time sequences, all orders of adding, removing and progressing",
  "Time is wall-clock in tests, so boundary instants and orders among several triggers are not controllable.",
  ["src/vt/timetrigger/time_trigger_manager.cc","src/vt/timetrigger/trigger.h"],
  [("priority queue by next due time","src/vt/timetrigger/time_trigger_manager.cc")],
  ["TimeTriggerManager::addTrigger/removeTrigger/progress and trigger actions"])
p("C36", "Components start after what they depend on and stop in reverse order",
  "For every dependency graph without cycles, each required component (transitively) is constructed exactly once, after all of its startup dependencies, and components are finalised and destroyed in exactly the reverse of construction order. A cycle of startup dependencies is reported, and progress is polled exactly on pollable live components.",
  ["configurations"], "all dependency graphs over the bounded number of components, all registration and addition orders",
  "Tests use the one fixed graph of the runtime.",
  ["src/vt/runtime/component/component_pack.cc","src/vt/runtime/component/component_pack.impl.h","src/vt/runtime/component/component_registry.h"],
  [("topological sort","src/vt/runtime/component/component_pack.cc")],
  ["construction, startup, finalize and destruction order"])
p("C37", "The location cache returns the newest mapping and evicts only the oldest use",
  "A lookup returns the most recently stored location for an identifier unless it was removed or evicted; the number of entries never exceeds the configured bound; eviction removes the least recently used entry only when needed. Location records survive copying exactly.",
  ["histories"], "all sequences of insert, lookup and remove over identifiers and cache sizes within the bound",
  "Eviction order is only exercised by long access patterns.",
  ["src/vt/topos/location/cache/cache.h","src/vt/topos/location/cache/cache.impl.h","src/vt/topos/location/record"],
  [("LRU list plus map","src/vt/topos/location/cache/cache.impl.h")],
  ["LocationCache::insert/get/exists/remove"])
p("C38", "Recorded element loads and communication add up, per phase and subphase",
  "For each phase, an element's recorded load equals the sum of the time added to it and the sum over its subphases, its communication totals equal what was reported, phases do not leak into one another, and releasing old phases keeps exactly the recent window.",
  ["histories","inputs"], "all sequences of start/stop, add, phase and subphase changes and releases within the bound",
  "Subphase changes in unusual orders and releases at window edges are not sampled.",
  ["src/vt/elm/elm_lb_data.cc","src/vt/elm/elm_lb_data.h"],
  [("per-phase maps and per-subphase vectors","src/vt/elm/elm_lb_data.cc")],
  ["ElementLBData::getLoad/getSubphaseTimes/getComm/getSubphaseComm"])
p("C39", "Load models compute the quantity they document over any recorded history",
  "Each load model returns the load its definition states (raw, selected subphases, sums, norms, maxima over phases, persistence, per-collection choice, proposed reassignment) for every object it reports, and iteration over a model visits exactly the objects it should. Composing models applies them in order without touching the underlying data.",
  ["inputs","histories"], "all recorded loads, phases, subphases and look-back windows within the bound",
  "Tests check one small fixed table per model and are not in the runnable suite.",
  ["src/vt/vrt/collection/balance/model"],
  [("load model classes","src/vt/vrt/collection/balance/model")],
  ["LoadModel::getModeledLoad/begin/isValid/numObjects"])
p("C40", "Reduction operators are exact, associative and lose nothing",
  "The built-in reduction operators (sum, min, max, and, or, bitwise, concatenation, tuples and vectors of them) compute the mathematical combination element-wise, with the same result for any grouping of the contributions, and keep every element of container-valued contributions.",
  ["inputs"], "all operand values of the bounded container sizes, all groupings of three contributions",
  "Tests sample one data set per operator and are not in the runnable suite.",
  ["src/vt/collective/reduce/operators","src/vt/utils/fntraits"],
  [("operator functors","src/vt/collective/reduce/operators/functors")],
  ["PlusOp, MaxOp, MinOp, AndOp, OrOp, BitAndOp, BitOrOp, BitXorOp"])
p("C41", "Demangled-name helpers split names without losing text",
  "For every type string, the namespace part and bare name re-assemble to the name, splitting only at a top-level scope separator and never inside template arguments; argument extraction returns exactly the text between the outer parentheses of a void function type and otherwise the input; joining after splitting, and space removal, preserve all other characters.",
  ["inputs"], "all strings over the significant characters up to the stated length",
  "Tests use a few dozen names; nested templates and degenerate strings are where index arithmetic breaks.",
  ["src/vt/utils/demangle/demangle.cc","src/vt/utils/demangle/demangle.h"],
  [("recursive scan with template depth","src/vt/utils/demangle/demangle.cc")],
  ["TemplateExtract::getNamespace/getBarename/getVoidFuncStrArgs/lastNamedPfType, DemanglerUtils"])
p("C42", "Compressed streams and JSON input reproduce the written bytes exactly",
  "Data written in any sequence of pieces through the compressing or plain output path and read back in any chunk size is byte-for-byte the same, with no byte lost, repeated or added at buffer boundaries and the end reported exactly once at the end.",
  ["inputs"], "all content lengths, write sizes, read chunk sizes and codec buffering behaviours within the bound",
  "Boundary cases (data a multiple of, or one more than, a chunk) need sizes the tests do not hit.",
  ["src/vt/utils/compress/compressor.cc","src/vt/utils/compress/decompressor.impl.h","src/vt/utils/json/decompression_input_container.cc","src/vt/utils/json/input_iterator.h"],
  [("chunk refill","src/vt/utils/json/decompression_input_container.cc"),("codec loops","src/vt/utils/compress")],
  ["bytes read through InputIterator / Decompressor::read / written by Compressor::write"])
p("C43", "Phase specifications enable exactly the phases they describe",
  "A trace or load-balancing specification file enables a phase if and only if one of its lines says so (an exact phase, or a modulus, with its window of offsets), a load-balancer file selects for each phase exactly the balancer the nearest matching rule names, and malformed or duplicate entries are rejected.",
  ["inputs"], "all phases and all entries (phase, modulus, offsets) within the bound",
  "Tests use one file; windows that reach below zero or wrap a modulus are not sampled.",
  ["src/vt/utils/file_spec/spec.h","src/vt/utils/file_spec/spec.cc","src/vt/vrt/collection/balance/read_lb.cc"],
  [("spec entry test","src/vt/utils/file_spec/spec.h"),("rule lookup","src/vt/vrt/collection/balance/read_lb.cc")],
  ["FileSpec::checkEnabled, SpecEntry::testEnabledFor, ReadLBConfig::getLB"])
p("C44", "Reported statistics equal the statistics of the samples",
  "Diagnostic counters, gauges and timers report the exact sum, count, minimum, maximum and mean of what was recorded and reset cleanly; the linear regression used for load prediction reproduces exactly linear data; memory sizes are reported in the largest unit not exceeding them with the value unchanged.",
  ["inputs","histories"], "all bounded sequences of samples and resets; all sizes",
  "Tests use one data set; extremes and resets are not sampled.",
  ["src/vt/runtime/component/meter","src/vt/runtime/component/diagnostic_value.h","src/vt/utils/stats/linear_regression.h","src/vt/utils/memory/memory_units.cc"],
  [("diagnostic update and aggregation","src/vt/runtime/component/diagnostic_value.h"),("least squares","src/vt/utils/stats/linear_regression.h")],
  ["Diagnostic value snapshots, LinearRegression::predict, getBestMemoryUnit"])
p("C45", "Trace logs record every event once, well nested, in time order",
  "Each traced unit of work is logged with one begin and one matching end, nested events properly bracket one another, re-opened outer events resume after inner ones end, identifiers of events and user events are unique per name, and disabling or re-enabling tracing never leaves unmatched records.",
  ["histories"], "all nesting and enabling sequences within the bound, all event registrations",
  "Nesting combined with trace disabling at a phase boundary is not sampled by tests.",
  ["src/vt/trace/trace_lite.cc","src/vt/trace/trace.cc","src/vt/trace/trace_containers.cc","src/vt/trace/trace_event.cc","src/vt/trace/trace_user_event.cc"],
  [("open event stack","src/vt/trace/trace_lite.cc beginProcessing/endProcessing"),("event registries","src/vt/trace/trace_containers.cc")],
  ["log records, event ids"])
p("C46", "Times and durations convert and compare without loss",
  "Time values convert between seconds, milliseconds and microseconds consistently, differences and comparisons agree with the underlying clock readings, and the text form shows the value's magnitude in the right unit.",
  ["inputs"], "all finite clock readings within the stated range",
  "One formatting test with fixed constants exists.",
  ["src/vt/timing/timing.h","src/vt/timing/timing.cc","src/vt/timing/timing_type.h"],
  [("unit conversion","src/vt/timing/timing_type.h")],
  ["TimeType arithmetic, milliseconds/seconds"])
p("C47", "User-level threads resume where they suspended and are reclaimed after finishing",
  "A suspended threaded task resumes exactly once per resume with its context intact, thread identifiers are never reused while live, and a finished thread's resources are released while a live one is never released.",
  ["schedules","histories"], "all suspend/resume orders over the bounded number of threads",
  "Needs the scheduler and context switches; only the raw context-switch primitives are tested.",
  ["src/vt/scheduler/thread_manager.cc","src/vt/scheduler/thread_manager.impl.h","src/vt/scheduler/thread_action.cc","lib/context"],
  [("thread table and fcontext switch","src/vt/scheduler/thread_manager.impl.h, src/vt/scheduler/thread_action.cc")],
  ["ThreadManager::getThread/allocateThreadRun/deallocateThread"])
p("C48", "Configuration options reach the runtime exactly as given",
  "Every runtime option given on the command line or in a configuration file sets exactly its own setting to the given value, leaves all others at their defaults, passes user arguments through untouched and in order, and contradictory or malformed options are rejected.",
  ["inputs","configurations"], "all options and option pairs within the bound",
  "Tests set a handful of options; a mis-wired option among a few hundred is not noticed.",
  ["src/vt/configs/arguments/args.cc","src/vt/configs/arguments/app_config.h","src/vt/configs/arguments/argv_container.h"],
  [("option tables","src/vt/configs/arguments/args.cc")],
  ["AppConfig fields after parse"])
p("C49", "Serialised load-balancing data reads back as the data that was written",
  "Load-balancing data (task loads, subphase loads, communication, user data, identity and index of objects) written to the JSON form and read back yields the same data, for any objects, phases and communication kinds; skipped or repeated phases are preserved.",
  ["inputs","histories"], "all object sets, phases, loads and edges within the bound",
  "Tests write one small data set.",
  ["src/vt/vrt/collection/balance/lb_data_holder.cc","src/vt/vrt/collection/balance/lb_data_restart_reader.cc"],
  [("toJson / constructor from json","src/vt/vrt/collection/balance/lb_data_holder.cc")],
  ["LBDataHolder::toJson and reconstruction"])
p("C50", "Asynchronous events complete exactly when everything they wait for has",
  "An event reports completion, and runs the actions attached to it, exactly once, when its underlying operation (or, for a parent event, every child operation) has completed and not before, regardless of polling order. Identifiers of outstanding events are unique.",
  ["histories","schedules"], "all orders of creation, attachment, completion and polling within the bound",
  "Completion order of nonblocking operations is uncontrolled in tests.",
  ["src/vt/event/event.cc","src/vt/event/event_record.cc","src/vt/event/event_holder.cc","src/vt/messaging/request_holder.h"],
  [("parent counting and polling","src/vt/event/event.cc, src/vt/event/event_record.cc")],
  ["AsyncEvent::testEventComplete/attachAction"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
