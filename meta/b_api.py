from .base import prop

prop("P11", "No internal error leaves the C interface as a C++ exception",
     "Whatever goes wrong inside (system calls, configuration, table limits, conversions, malformed requests), every "
     "function of the C programming interface returns to its caller in the documented way and never lets a C++ exception "
     "through, and no thread or non-throwing function of the library is ended by one. An exception from a service "
     "routine does not end the server. Memory exhaustion is excepted.",
     ["fault_sequences", "inputs", "configurations"],
     "every function callable from C, every input and every failure of what it calls",
     "Tests call the functions under conditions in which nothing underneath fails.",
     ["src/misc.h", "src/client.cpp", "src/server.cpp", "src/tx.cpp", "src/trx.cpp", "src/fml32.cpp", "src/expr.cpp",
      "src/mem.cpp", "src/tpadmcall.cpp", "src/BBL.cpp"],
     [("exception boundaries", "src/misc.h exception_boundary"), ("function try blocks", "src/tx.cpp, src/server.cpp"),
      ("service dispatch", "src/server.cpp dispatch")],
     "exception-effect analysis over the call graph, fix point by exception type",
     "Sound for throw expressions in the tree and the listed throwing standard functions; indirect calls are resolved by "
     "signature. Exceptions of destructors are not covered.",
     state=[("escaping types", "exception types that can leave a function")])

prop("P07", "Each call descriptor gets its own reply, once",
     "A call that could not be sent leaves no call descriptor outstanding. A reply is handed out only for an outstanding "
     "descriptor, the requested one unless any is accepted, and ends it; replies for other outstanding descriptors are "
     "kept for them, replies to cancelled ones are dropped. Asking for or cancelling a descriptor that is not "
     "outstanding is an error.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of calls, replies, cancellations and failures and every order in which replies arrive",
     "The order of arrival and the failure of one particular send decide; tests have one client and prompt replies.",
     ["src/client.cpp", "src/resp.h"],
     [("outstanding descriptors and kept replies", "src/resp.h responses"),
      ("sending requests, matching replies, cancelling", "src/client.cpp client")],
     "typestate of the descriptor set and of the received reply along every path of the client functions",
     "One client thread; what the server puts in a reply is P08.",
     state=[("descriptor", "free, outstanding, reply kept"), ("reply", "received, kept, handed out, dropped")])

prop("P08", "Every request that wants a reply is answered exactly once, with its result",
     "Whichever way a service ends (return, forward, exception, returning without a reply, unknown service), a request "
     "that asks for a reply gets exactly one, on the caller's queue, for the caller's call descriptor, with the return code, data and "
     "outcome of the service; success only if it succeeded; a request that asks for none gets none. Before that the "
     "service's part of the transaction is ended with the same outcome. Forwarded requests keep caller, "
     "descriptor, data and transaction; requests made in a transaction carry it and are executed in it.",
     ["histories", "fault_sequences"],
     "every way a service can end, every request and every failure of a send, lookup or transaction operation",
     "Tests call one well-behaved service at a time; failing sends, exceptions and transactions are missing.",
     ["src/server.cpp", "src/client.cpp"],
     [("return and forward", "src/server.cpp server_thread, tpreturn, tpforward"),
      ("dispatch loop", "src/server.cpp dispatch"), ("making requests", "src/client.cpp client::tpacall_queue")],
     "path-sensitive event sequences of the functions that end a service and of the dispatch loop",
     "If answering fails twice (the failure reply cannot be sent either) the request is lost; messages put back or "
     "kept for shutdown count as not yet executed.",
     state=[("request", "received, executing, answered, forwarded, put back")])

prop("P09", "Service data and typed buffers are freed exactly once, owners stay informed",
     "The data a service returns or forwards is freed exactly once after it was sent, unless it is the buffer the "
     "service was given, which stays for the next request, and it is not used after being freed. Freeing a typed buffer "
     "runs its type's clean-up, clears the owner's reference and releases the memory once; enlarging one hands back the moved "
     "buffer, informs its type and its owner; running out of memory is reported, not used.",
     ["histories", "fault_sequences"],
     "every way a service can end with every kind of buffer, and every outcome of an allocation",
     "Double frees and leaks do not show in the results tests look at, and allocation never fails there.",
     ["src/server.cpp", "src/mem.cpp"],
     [("freeing what a service returns", "src/server.cpp server_thread::reply, tpforward"),
      ("allocation", "src/mem.cpp tpalloc, tprealloc, tpfree")],
     "ownership typestate along every path of the functions that end a service and of the allocation functions",
     "Data that cannot be copied into the reply (broken buffer) is not freed; buffers the application keeps are its own.",
     state=[("buffer", "live, sent, freed"), ("owner", "reference kept by the server thread")])

prop("P10", "A failing ATMI call says why, a successful one leaves no error",
     "Every ATMI call that fails returns its failure value (-1 or a null pointer) and leaves one of its documented error "
     "numbers; one that succeeds leaves error number 0, and a failure underneath is never reported as success. Null "
     "pointers and flags that are not allowed are refused with TPEINVAL and not used; unknown services, full queues and "
     "tables, unknown descriptors and each result of the TX interface are reported by the error number for them, and "
     "tpstrerror gives each error number its own name.",
     ["inputs", "fault_sequences", "histories"],
     "every ATMI call with every argument and every failure of what it calls, after any earlier call",
     "Which error number is left depends on the path taken and on what fails underneath; tests provoke a few failures.",
     ["src/client.cpp", "src/server.cpp", "src/trx.cpp", "src/mem.cpp", "src/resp.h", "src/xatmi.cpp", "src/misc.h",
      "src/tpadmcall.cpp", "src/tmq.cpp"],
     [("setting and clearing the error number", "src/xatmi.cpp set_tperrno, reset_tperrno"),
      ("exception boundaries", "src/misc.h exception_boundary"), ("transaction functions", "src/trx.cpp"),
      ("descriptors", "src/resp.h responses"), ("typed buffers", "src/mem.cpp")],
     "path-sensitive simulation of every ATMI function following the error number (typestate with exception effects)",
     "Functions whose effect on the error number cannot matter are opaque but throw what they can throw. Sizes and "
     "descriptors are taken to be non-negative (P07, P16). Which system error is reported as TPESYSTEM or TPEOS is not "
     "prescribed.",
     state=[("error number", "0, documented number, that of an earlier call"), ("result", "success, failure")])
