from .base import prop

prop("P12", "Fielded-buffer functions refuse what is no buffer and no field",
     "Every fielded-buffer function given a null or misaligned buffer does not touch it, returns its failure value and "
     "reports that it is no fielded buffer. One given a field identifier of an unknown type, or the invalid identifier, "
     "fails with the error for that and leaves the buffer alone. Valid buffers and fields of every type are not refused for being so.",
     ["inputs"],
     "every function, each of its buffers, every kind of wrong buffer and field identifier, whatever the other arguments",
     "Tests try null with a few functions and never a misaligned buffer or every unknown type with every function.",
     ["src/fml32.cpp", "src/expr.cpp"],
     [("interface functions", "src/fml32.cpp F*32, CF*32"), ("expressions", "src/expr.cpp Fboolev32, Ffloatev32")],
     "constant propagation of every invalid argument through every interface function",
     "Pointers that are aligned but point to something else can not be told and are not claimed.")

prop("P13", "Fields of each type are stored, found, read and converted as that type",
     "A field takes the space its type and value need and its value is stored, handed out, compared, printed and "
     "converted with the length and C type of its field type. Stepping from one field to the next and searching start and "
     "end where the fields of that type do. A conversion reads the value as the type it has and yields the type and "
     "length asked for; one that is impossible is refused.",
     ["inputs"],
     "every type, and lengths of values on both sides of every rounding step",
     "Tests use short values of few types; a wrong size for one type shows only with other fields behind it.",
     ["src/fbfr32.h", "src/fml32.cpp"],
     [("fields by type", "src/fbfr32.h next_, flength, fvalue, chg, findocc, fprint"), ("conversion", "src/fml32.cpp Ftypcvt32")],
     "constant propagation of field types and lengths through a byte-offset model of the buffer",
     "What a conversion computes (rounding, range) is the C language's conversion and not judged.")

prop("P14", "Fielded buffers are changed within their space, completely or not at all",
     "Storing, replacing, removing, copying, reading and appending fields never writes beyond the space of the buffer, "
     "moves the fields behind by exactly what changed, and keeps the record of the used space and of where the fields of each "
     "type are in step with them. A change for which there is no room is refused with "
     "the error for that and changes nothing. Searches end at the field asked for or where it belongs, and operations over several "
     "fields visit each of them and report one that could not be stored.",
     ["inputs", "histories"],
     "every type, old and new length, place and fill of the buffer, new, replaced and missing occurrences",
     "Tests use buffers with ample room and few fields; damage shows only with other types behind the changed field.",
     ["src/fbfr32.h"],
     [("changes", "src/fbfr32.h Fbfr32::chg, erase, cpy, read, concat, init, reinit"), ("walks", "src/fbfr32.h Fbfr32::iterate")],
     "byte-offset simulation of each change with linear forms for places, lengths and the bounds of the types",
     "For one change of a buffer whose bounds are in order; the bounds a buffer received or read from a file contains are "
     "taken as they are.",
     state=[("fill", "space in use"), ("bounds", "where the fields of each type start and end")])

prop("P15", "Field values are handed out whole, within the room given, and only if present",
     "A function that copies a value writes no more than the room it was given; if that is too little it writes nothing of the value, "
     "reports the length needed and the error for that. For a field or occurrence that is not in the buffer it fails with "
     "the error for that and never hands out another field. Values that are converted on the way, and memory that is allocated "
     "for values and buffers, are used only if the conversion and allocation succeeded and with the length they have.",
     ["inputs", "fault_sequences"],
     "every type and length, every room given, fields present, absent and followed by others, failing allocations",
     "Tests give ample room and never fail an allocation.",
     ["src/fbfr32.h", "src/fml32.cpp"],
     [("values", "src/fbfr32.h get, next, find, findlast, getalloc"), ("conversion", "src/fml32.cpp CFget32, CFfind32, CFadd32, CFchg32"),
      ("allocation", "src/fml32.cpp Falloc32, Frealloc32")],
     "path-sensitive simulation of each function with the room as a symbol and the field present, absent or another",
     "Functions that are given no room to respect (a null length) copy the whole value, as documented.")

prop("P27", "Expressions over fielded buffers mean what their text says",
     "A compiled expression is evaluated and printed from exactly the bytes the compiler wrote, the compiler never writes beyond the room "
     "it has, the whole text belongs to the expression, and operators group by their documented strength and, if equal, from the left. "
     "For every operator and every pair of operand kinds (integers, fractions, text of fields and text constants) the result is what the "
     "operator means: fractions if one operand has one, comparison as text if an operand is a text constant or both are text, patterns "
     "anchored at the beginning of the left operand, '?' true if any occurrence is, missing fields as zero or empty. Integers are never "
     "divided by zero or beyond their range, and the value of a converted field is not replaced by converting another one.",
     ["inputs"],
     "every expression and every buffer, operand kinds and number of occurrences",
     "Tests evaluate a dozen expressions with operands of the usual kinds; pairs of kinds, groupings and long constants are not sampled.",
     ["src/expr.cpp", "src/basic_parser.h"],
     [("compiler", "src/expr.cpp expression_parser, ast_tree"), ("evaluator", "src/expr.cpp boolev, Fboolev32, Ffloatev32"),
      ("printer", "src/expr.cpp boolpr")],
     "path-sensitive symbolic-value dataflow of compiler, evaluator and printer per operation code and operand kind; linear inequalities "
     "for the room",
     "How deep an expression may be nested, overflow of + - and * on integers, and expressions longer than the 16-bit length in their "
     "first two bytes are outside.")
