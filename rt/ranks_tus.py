# translation units of the runtime that a several-rank driver links
S = "src/vt/"
COMMON = [S + x for x in """messaging/active.cc
messaging/pending_send.cc
termination/termination.cc
termination/term_action.cc
termination/term_state.cc
termination/epoch_dependency.cc
termination/epoch_guard.cc
termination/epoch_label.cc
termination/epoch_tags.cc
epoch/epoch_manip.cc
epoch/epoch_window.cc
scheduler/scheduler.cc
scheduler/suspended_units.cc
scheduler/base_unit.cc
scheduler/thread_action.cc
scheduler/thread_manager.cc
runnable/runnable.cc
context/context.cc
event/event.cc
event/event_holder.cc
event/event_id.cc
event/event_record.cc
group/group_manager.cc
group/group_manager_active_attorney.cc
group/global/group_default.cc
pool/pool.cc
pipe/signal/signal_holder.cc
collective/tree/tree.cc
handler/handler.cc
context/context_attorney.cc
context/runnable_context/lb_data.cc
runtime/mpi_access.cc
elm/elm_id.cc
elm/elm_id_bits.cc
elm/elm_lb_data.cc
runtime/component/diagnostic.cc
termination/dijkstra-scholten/comm.cc
termination/dijkstra-scholten/ds.cc
termination/graph/epoch_graph.cc
registry/auto/auto_registry.cc
pool/header/pool_header.cc
context/runnable_context/td.cc
context/runnable_context/set_context.cc""".split()]
COLL = COMMON + [S + x for x in """collective/collective_alg.cc
collective/barrier/barrier.cc
collective/collective_scope.cc
collective/scatter/scatter.cc
collective/reduce/reduce.cc
collective/reduce/reduce_manager.cc
collective/reduce/reduce_state_holder.cc""".split()]
RT = [S + "runtime/component/component_pack.cc"]
