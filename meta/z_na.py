from .base import na

na("P80", "Messages of one sender keep their order and priorities are fair",
   "Requests that one client sends to one queue with equal priority are received in the order sent, a higher "
   "priority overtakes a lower one, and a low-priority request is not postponed for ever.",
   ["schedules", "histories"], "every interleaving of senders and receivers",
   "The order depends on the schedule and on the kernel's queue, tests see one schedule.",
   ["src/ipc.cpp", "src/client.cpp", "src/server.cpp"], [("message type as priority", "src/ipc.cpp fux::ipc::qsend/qrecv")],
   "Ordering is decided by the kernel's message queue and the run-time schedule; no construct of the source whose "
   "presence or absence a static argument could report decides it.")
na("P81", "Values survive storing, converting and printing unchanged",
   "A value stored in a fielded buffer, converted between field types or printed and read back equals the original "
   "as far as the target type can represent it.",
   ["inputs"], "every value of every field type",
   "Tests sample a few values of each type.",
   ["src/fml32.cpp", "src/ud32.cpp"], [("conversions", "src/fml32.cpp Fldid conversions and printing")],
   "Equality of computed values is a statement about run-time numbers and texts that no sound dataflow argument in "
   "reach bounds (rounding, formatting, escaping); the structural part (each type handled, same width read as "
   "written) is claimed separately.")
na("P82", "Every request is eventually answered and time-outs fire on time",
   "A client that waits for a reply gets it or an error no later than the configured time, and a server that is "
   "told to shut down ends.",
   ["schedules", "fault_sequences"], "every schedule and every configured time",
   "Tests cannot wait out schedules.",
   ["src/client.cpp", "src/server.cpp", "src/BBL.cpp"], [("deadline handling", "src/client.cpp, src/BBL.cpp")],
   "Liveness and elapsed time depend on the scheduler and the clock; a static argument can show that the waiting "
   "calls are given a deadline (see the block-time property), not when they return.")
