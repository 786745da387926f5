from .base import prop

prop("P22", "Transaction calls follow the TX states; thread and resource manager in step",
     "Each transaction call is accepted only in the states in which the TX specification allows it; elsewhere it returns "
     "a protocol error and touches neither the resource manager nor the thread's transaction. A call that succeeds leaves "
     "the thread in the specified next state, one that fails to begin, join or resume leaves it outside with nothing "
     "started. The thread is in a transaction exactly when its resource manager is, the transaction's shared "
     "entry is ended exactly once when it completes, and the information call tells whether there is one.",
     ["histories", "fault_sequences"],
     "every state, every call and every failure of the resource manager, the table and the other groups",
     "Tests run one successful sequence of calls; failures of a resource manager and wrong orders are missing.",
     ["src/tx.cpp", "src/trx.cpp"],
     [("TX states and calls", "src/tx.cpp tx_begin ... tx_info"), ("suspend, resume, join", "src/tx.cpp, src/trx.cpp")],
     "path-sensitive simulation of every transaction function from every state against the TX state table",
     "One thread; what a resource manager does with a call is outside. After a failure of the resource manager to end a "
     "transaction the state is the fatal one of the specification.",
     state=[("state", "S0 to S4 of the TX specification"), ("association", "resource manager told of the transaction")])

prop("P23", "A transaction commits only if all participants prepared; all get the decision",
     "The decision to commit is sent only if every group that takes part answered its request to prepare with prepared "
     "or read-only; otherwise the transaction is rolled back. Every prepared participant is told the decision, one that "
     "was read-only is left alone, and success is reported only if all of them followed it. A participant's result comes only from the answer of its "
     "own transaction manager; no answer counts as failure.",
     ["fault_sequences", "schedules", "inputs"],
     "every set of participants, every answer of each and every failure to send, receive or understand one",
     "Tests have one participant that always says yes.",
     ["src/tx.cpp"],
     [("two-phase commit", "src/tx.cpp tx_commit, command and reply collection")],
     "path-sensitive simulation of commit and roll-back with loop rules for the sets of participants",
     "Recovery after a crash of the coordinator is not implemented by the product and not claimed.",
     state=[("participant", "unknown, prepared, read-only, failed, told")])

prop("P24", "Resource managers are called as the XA protocol prescribes",
     "A transaction manager carries out exactly the requested operation (prepare, commit, roll back) for the requested "
     "transaction, sends back the resource manager's own result, and refuses unknown requests without calling anything. "
     "Beginning, joining, resuming, suspending and ending a transaction pass the resource manager the flags the "
     "XA specification gives for them.",
     ["inputs", "histories"],
     "every request and every answer of the resource manager",
     "Tests use a resource manager that accepts everything.",
     ["src/trx.cpp", "src/tx.cpp"],
     [("transaction manager service", "src/trx.cpp"), ("association", "src/tx.cpp")],
     "path-sensitive simulation of the transaction manager's service and of the association functions",
     "Requests and operations are matched by the constants the coordinator sends.")

prop("P25", "Global transactions have identifiers and table entries of their own",
     "Every transaction begun gets an identifier made whole from the machine, the time and an atomically drawn number "
     "that do not overlap in it, and a table entry of its own that was free and keeps nothing of its former transaction; a request for "
     "an unknown group takes none. Looking a transaction up finds only the entry with exactly that identifier, taking "
     "part marks exactly that group in that entry, and an ended entry can be used again.",
     ["histories", "schedules", "inputs"],
     "every history of transactions begun, joined, looked up and ended, up to the size of the table",
     "Tests begin one transaction at a time and never look an unknown one up or fill the table.",
     ["src/trx.h", "src/mib.cpp", "src/tx.cpp"],
     [("transaction table", "src/trx.h transaction_table"), ("identifiers", "src/mib.cpp mib::genuid, src/tx.cpp xid")],
     "path-sensitive simulation of the table's functions and bit-interval analysis of the identifier's parts",
     "More than sixteen million transactions begun in one second by one machine, and clocks set back across a restart, "
     "are outside. Locking of the table is P04.",
     state=[("entry", "never used, free, in use")])

prop("P26", "Positions, numbers and identifiers of different kinds are never mixed up",
     "A value that names one thing (a position in one of the shared tables, a group number, a server number, an "
     "identifier of a message queue, semaphore or memory segment, a process, a call descriptor, a field identifier or an "
     "occurrence of a field) is never stored, compared, sent or used where one that names a different kind of thing is "
     "expected. Every new entry of a shared table is given a value in each of its references to other entries, groups, "
     "servers and queues that anybody reads.",
     ["histories", "configurations"],
     "every configuration, number of groups, servers, queues and services, and order in which they were made",
     "In the tests' small configurations numbers and positions often coincide: the first group is number one, the first "
     "server serves the first queue, and every identifier fits everywhere.",
     ["src/mib.cpp", "src/mib.h", "src/mibtypes.h", "src/server.cpp", "src/client.cpp", "src/svcrepo.h", "src/tx.cpp",
      "src/trx.h", "src/tpadmcall.cpp", "src/BBL.cpp", "src/ipc.cpp", "src/fbfr32.h", "src/fml32.cpp"],
     [("tables and their references", "src/mibtypes.h, src/mib.cpp"), ("group marks", "src/trx.h transaction_table::join"),
      ("queues of services", "src/svcrepo.h, src/client.cpp"), ("IPC identifiers", "src/ipc.cpp, src/mib.cpp collect"),
      ("fields", "src/fbfr32.h, src/fml32.cpp")],
     "kind inference by unification over every flow of a number in the program, generic per function; path-sensitive "
     "check that makers of entries give references values",
     "Kinds come from the tables' accessors, the declared type names of parameters, results and fields, and the system "
     "calls that make and take identifiers; numbers that go through text or arithmetic other than adding a constant are "
     "of no kind.")
