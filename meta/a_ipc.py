from .base import prop

prop("P01", "A failed queue or semaphore operation is never reported as done",
     "When an operating-system call that creates, sends to, receives from, locks or unlocks an IPC object fails, the "
     "operation that issued it ends with an error: no message is reported as sent, received or stored, and no lock as "
     "taken, that was not. 'Could not send, queue is full' is reported only when the queue really is full, and a "
     "receive that times out or is interrupted never yields a message.",
     ["fault_sequences", "histories"],
     "every sequence of outcomes (success, or failure with any errno) of the system calls issued by the message-queue, "
     "semaphore and spill-file primitives",
     "The tests run these primitives only with system calls that succeed; a failing msgsnd, semop, write or mkstemp "
     "needs a full disk, exhausted IPC limits or a removed queue at one particular call.",
     ["src/ipc.cpp", "src/ipc.h"],
     [("queue create/send/receive", "src/ipc.cpp fux::ipc::qcreate/qsend/qrecv"),
      ("semaphore create/lock/unlock", "src/ipc.cpp fux::ipc::seminit/semlock/semunlock"),
      ("who may call the raw system calls", "all translation units")],
     "path-sensitive dataflow: failure state of each system call tracked to every exit",
     "Sound for the modelled system calls (each forked into success/failure); library calls outside the tree are "
     "taken at their documentation.", state=[("last failed call", "which system call failed and was not retried")])

prop("P02", "Oversized messages arrive whole and leave no file behind",
     "A message too large for the queue travels through a temporary file that holds exactly the message; the receiver "
     "gets the same number of bytes, category and addressing as for a small one. On every outcome, failures included, "
     "the file is removed and every descriptor closed, by the sender when the hand-over fails and by the receiver "
     "once it took over. Neither side ever writes or reads beyond the message buffer, and a direct message is never "
     "longer than the receiver's queue buffer.",
     ["fault_sequences", "inputs"],
     "every message size and every outcome of each file or queue operation during the transfer",
     "One test sends one large message with every operation succeeding; leaks show only when a write, a send or a "
     "receive fails half-way.",
     ["src/ipc.cpp", "src/ipc.h"],
     [("sender side", "src/ipc.cpp fux::ipc::qsend"), ("receiver side", "src/ipc.cpp fux::ipc::qrecv")],
     "typestate of file and descriptors over all paths + interval bounds + sender/receiver agreement",
     "All paths of both primitives with every system call failing or succeeding; crash between the two processes is "
     "not covered.", state=[("spill file", "none, open, on disk, removed"), ("descriptor", "open or closed")])

prop("P03", "Every lock taken is released on every way out and never taken twice",
     "Whatever way an operation ends, by result, error or exception, every shared-table lock and mutex it took is "
     "released again, and no thread waits for a lock that it already holds. A process that dies while holding the "
     "shared-table lock does not leave it locked. No message is waited for, nothing sleeps and no application code "
     "(service, initialisation or callback) runs while the shared-table lock or a server's mutex is held.",
     ["schedules", "fault_sequences", "crash_points"],
     "every path, including the exceptional ones, of every operation that can take a lock, and death of the holder",
     "A lock left behind on an error path or taken twice shows up only when exactly that path is taken; the tests "
     "neither inject failures nor run contending processes.",
     ["src/ipc.cpp", "src/mib.h", "src/mib.cpp", "src/server.cpp", "src/svcrepo.h", "src/tpadmcall.cpp",
      "src/BBL.cpp", "src/fbfr32fld.h"],
     [("semaphore lock and guards", "src/ipc.cpp fux::ipc::semlock/semunlock, src/mib.h fux::scoped_fuxlock"),
      ("mutex guards", "std::lock_guard / std::unique_lock users"),
      ("undo on exit", "semop flags in src/ipc.cpp")],
     "lock-state analysis (path-sensitive, interprocedural by summaries)",
     "Locks are distinguished by the object they belong to; aliasing of two instances of one class is not modelled.",
     state=[("held", "multiset of semaphores and mutexes held on the path")])

prop("P04", "Shared tables and shared containers change only under their lock",
     "Every change to the structure of the tables shared by all processes (services, advertisements, queues, groups, "
     "servers, clients, transactions) is made while the shared-table lock is held, from whichever API function or "
     "program it starts. Containers shared by the threads of one process (a server's list of services, the field "
     "name tables) are read and changed only under their mutex.",
     ["schedules", "histories"],
     "every interleaving of processes and threads that reach a table or container through any entry point",
     "A missing lock breaks only under a rare interleaving of processes; the tests run one server at a time and "
     "cannot enumerate schedules.",
     ["src/mib.h", "src/mib.cpp", "src/trx.h", "src/tx.cpp", "src/BBL.cpp", "src/client.cpp", "src/server.cpp",
      "src/tpadmcall.cpp", "src/svcrepo.h", "src/fbfr32fld.h"],
     [("table entries", "src/mib.h struct mibarr users"), ("server's services", "src/server.cpp server_main"),
      ("field tables", "src/fbfr32fld.h")],
     "lock-set (guarded-by) analysis with requirements propagated over the call graph to entry points",
     "Reads of single table words outside the lock are tolerated except for the routing data (see P06). Fields "
     "exempted, with reasons, are listed in rules/p04_guarded_data.py.",
     state=[("locks held", "set of locks on the path"), ("requirement", "lock that callers must hold")])

prop("P05", "The shared tables never grow or are accessed beyond their capacity",
     "A new entry is made in a shared table (services, advertisements, queues, groups, servers, clients, "
     "transactions) only while the table has fewer entries than its capacity; a full table is reported as an error "
     "and leaves the table as it was. Every entry and every per-transaction group mark that is accessed lies inside "
     "the table.",
     ["histories", "configurations"],
     "every history of additions and every configured capacity and group count",
     "Running into the limits takes thousands of entries or tiny configured capacities; the tests stay far below.",
     ["src/mib.h", "src/mib.cpp", "src/trx.h", "src/BBL.cpp", "src/tpadmcall.cpp"],
     [("adding entries", "src/mib.cpp mib::make_*/advertise, src/trx.h transaction_table::start"),
      ("bounds checks", "src/mib.h mibarrptr, src/trx.h transaction_table::operator[]/join/has_joined")],
     "interval/relational dataflow on lengths and indices at every table access",
     "Capacities in the segment header are taken to be those the segment was laid out for (see P26).",
     state=[("length vs capacity", "relations proven on the path")])

prop("P06", "Callers never route by stale service lists, changes are always announced",
     "A request is sent only to a queue that advertised the service (in the requested group, if one is asked for) when "
     "the caller last looked, and a caller's remembered list is used only if the service has not changed since: every "
     "advertisement, withdrawal or other change of a service's queues changes that service's revision while the lock is "
     "held. When a service has no queue left, the caller is told so rather than given an old queue.",
     ["schedules", "histories"],
     "every interleaving of calls with services being advertised and unadvertised in any order",
     "A stale list needs a withdrawal between two calls of one client and a particular order of table entries.",
     ["src/svcrepo.h", "src/mib.h", "src/mib.cpp", "src/client.cpp"],
     [("caller's cache", "src/svcrepo.h service_repository"), ("announcing changes", "src/mib.cpp mib::advertise, "
      "mib::unadvertise")],
     "typestate of the cached list + value-flow of revision and queues + must-announce on writers",
     "One queue-lookup call at a time per client thread.", state=[("list", "unknown, cleared, filled, fresh")])
