from .base import prop

prop("P16", "Typed buffers have the memory they record and hold what their type says",
     "A typed buffer that is allocated or resized has at least the requested and the least size of its type, records no more "
     "than the memory it has, and on failure nothing is lost or changed. Exporting, importing and putting a buffer into a message "
     "or taking it out reads and writes only memory of the buffer, the message and the space the caller offers, transfers "
     "exactly what the buffer holds, and refuses data of types that do not exist, data that are too short and lengths the buffer "
     "does not have. After all of these a string ends inside its buffer and a fielded buffer knows its size.",
     ["inputs"],
     "every buffer type, size, length, flag and owner, and every failure of the memory allocation",
     "Tests use buffers that are larger than what they hold; a byte too many shows only with exact sizes and hostile data.",
     ["src/mem.cpp", "src/ipc.cpp", "src/ipc.h"],
     [("typed buffers", "src/mem.cpp tpalloc, tprealloc, tpfree, tptypes"), ("transfer", "src/mem.cpp tpimport, tpexport, bufsize"),
      ("messages", "src/ipc.cpp msg::set_data, msg::get_data")],
     "path-sensitive byte-offset simulation per row of the type table, linear inequalities of the path decide each access",
     "Data handed to an import are as long as the caller says; what is inside an imported fielded buffer is not judged. The base64 "
     "functions write no more than their limit (assumed).")
