from .base import prop

prop("P17", "Places of fixed size are never overrun and keep whole, ended texts",
     "Whatever length a name, path, message, number or transaction identifier has, copying or formatting it into a place whose "
     "size the program fixes stays inside that place, and an array is never read or written outside its bounds. A text stored in "
     "a field of a record is stored whole and with its end, or refused; only messages for people are cut.",
     ["inputs"],
     "every length of every text, number and identifier that is copied, formatted or taken apart",
     "A byte too many goes unnoticed with the short names of tests; only a text that just fills its field, a path of hundreds "
     "of characters or an identifier from elsewhere shows it.",
     ["src/misc.h", "src/userlog.cpp", "src/trx.h", "src/trx.cpp", "src/tx.cpp", "src/expr.cpp", "src/mem.cpp", "src/ipc.cpp",
      "src/xatmi.cpp", "src/fml32.cpp", "src/buildtms.cpp"],
     [("names into records", "src/misc.h checked_copy"), ("log and error texts", "src/userlog.cpp, src/xatmi.cpp, src/fml32.cpp"),
      ("identifiers as text", "src/trx.h to_string, to_xid"), ("numbers as text", "src/expr.cpp to_string")],
     "path-sensitive simulation of all functions with such sites; pointers resolve to objects of known size, counters of loops are "
     "multiples of their turns, and linear inequalities of the path decide each access",
     "Only objects whose size a type fixes; memory of buffers is judged by P13, P14 and P16. The names of buffer types need no end "
     "when they fill their field (XATMI). Identifiers given by others have parts of at most 64 bytes (X/Open).")

prop("P18", "Bytes turned into base64 text and back are the same bytes",
     "Turning bytes into base64 text gives the standard text with padding (RFC 4648), using exactly the space that is promised for it, "
     "and turning such a text back gives the same bytes. Text with a character outside the alphabet, of a wrong length or with misplaced "
     "padding is refused, nothing else is refused except for lack of space, and neither direction reads or writes outside the lengths given.",
     ["inputs"],
     "every sequence of bytes and every text of any length",
     "Tests convert a few short values; a wrong bit for one remainder of the length, a bad character in one of four places or a "
     "table entry never used stays unseen.",
     ["src/base64.cpp", "src/misc.h"],
     [("bytes to text", "src/base64.cpp base64encode"), ("text to bytes", "src/base64.cpp base64decode"),
      ("space needed", "src/base64.cpp base64chars")],
     "path-sensitive bit provenance: each bit written is traced to the input position and bit it comes from, positions are linear in "
     "the turns of the loops, refusals and tables follow from the facts of each path",
     "Bits of the last character that carry no data are not compared with zero (RFC 4648 leaves that to the decoder).")

prop("P28", "A loaded configuration is in the domain's tables as it was written",
     "Each group and server of a configuration is entered once, with exactly its own texts and numbers: MAX instances of a server with "
     "consecutive numbers, the first MIN started automatically, TMSCOUNT transaction managers on the group's own queue, servers without "
     "RQADDR on a queue of their own; missing optional numbers have their defaults, numbers outside their limits or not fitting their "
     "place are refused. The limits of the domain and the block time (units of SCANUNIT) are those of the configuration. A loaded "
     "configuration is replaced only by one found valid and wholly written, and never by a mere check (-n).",
     ["inputs"],
     "every configuration file: all entries, keywords given or missing, all values and numbers of instances",
     "Tests load a few small configurations; an instance too many, a limit that is cut when stored, a rare unit, a default or a failed "
     "write needs a particular file or a full disk to show.",
     ["src/ubb2mib.cpp", "src/tmloadcf.cpp", "src/mib.cpp", "src/mibtypes.h", "src/ubb.h"],
     [("configuration to tables", "src/ubb2mib.cpp ubb2mib, checked_get"), ("entries", "src/mib.cpp make_group, make_server"),
      ("limits and the loaded file", "src/tmloadcf.cpp main")],
     "path-sensitive provenance: every value stored in a record is a term over section, entry and keyword of the configuration and is "
     "compared with what belongs there; ranges come from the facts of the path, numbers of instances from loop counters as inductions",
     "The grammar of the file and the text of numbers (trailing characters) are not judged; optional numbers are analysed all given and "
     "all missing.")
