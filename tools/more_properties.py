UT = "src/compiler/cnd_utils.c"
prop("C15", "Program images are validated before use and keys map to their names",
 """A program image is accepted exactly when its header is right, its string table and bytecode start inside the image and every string of the table is terminated inside it; the loaded program's strings and
 bytecode are then exactly the image's, and a refused image leaves the program unchanged. Looking up a key gives the key-th string of the table (none beyond it), and looking up a name gives the index of the first string equal to it, or the "no such key" value;
 loading and lookups never read outside the image.""",
 ["inputs"], "all images of all lengths and contents, all string counts, all keys and names",
 "Images come from files: truncated and hostile headers, tables of 0 to 65535 strings and every string length cannot be sampled.",
 [VM], [("cnd_program_load_il, cnd_get_key_name, cnd_get_key_id", VM)], observe=["return values", "cnd_program fields"])
prop("C17", "A new context starts from a defined state whatever the memory held",
 """A raw program is exactly the given bytes without strings. A context that has been initialised starts at the first instruction, byte and bit, little-endian, with empty loop and expression stacks and no pending modifier, whatever its memory held before,
 and refers to exactly the program, data, mode, callback and user pointer it was given.""",
 ["inputs", "histories"], "all previous contents of the context, all arguments",
 "A field that is left uninitialised works in every test that happens to run on zeroed memory.",
 [VM], [("cnd_init, cnd_program_load", VM)], observe=["cnd_vm_ctx fields after cnd_init"])
prop("C18", "The compiler's output buffer holds exactly what was emitted",
 """Appending bytes or a 8, 16, 32 or 64-bit value to a compiler buffer leaves everything emitted before as it was and adds exactly the given bytes, values in little-endian order, whatever growth this takes;
 patching at an offset changes exactly the patched value's bytes, and nothing at all if they do not lie within what was emitted. Neither ever touches memory outside the buffer.""",
 ["inputs", "histories"], "all buffer sizes, capacities and contents, all appended lengths and values, all patch offsets",
 "Errors at a growth boundary or for a particular offset need buffers of particular sizes that the tests' schemas do not produce.",
 [UT], [("buf_append, buf_push*, buf_write_*_at", UT)], observe=["Buffer contents and size"])
prop("C19", "Equal names share one key and different names never do",
 """Adding a name to a string table returns the index of a string equal to it: the first one if the table has one, which then does not change, and otherwise the next index, under which a terminated copy is stored; all other strings keep their indices.
 This holds for tables of up to 65536 strings; larger ones do not fit the format.""",
 ["inputs", "histories"], "all tables, names and lengths, at every growth step",
 "Interning bugs show with names that are prefixes of each other or at a growth step of a large table.",
 [UT], [("strtab_add", UT)], observe=["returned key", "StringTable contents"])
prop("C22", "Integer literals have the value they denote",
 """The value of an integer literal is that of its digits in base 16 behind 0x or 0X and in base 10 otherwise, negated behind a minus sign, modulo the width of the result (so every literal that fits is exact, the most negative one included).""",
 ["inputs"], "all literals of all lengths and contents",
 "64-bit values, sign and prefix combinations at the limits.",
 [UT], [("parse_number_u32, parse_number_i64, hex_char_to_int", UT)], observe=["parsed value"])
prop("C20", "Dropping unused names renumbers every key and nothing else",
 """When the compiler drops unused names, a name is kept exactly if some instruction of the program has its key, every key operand of every instruction becomes the index of the same name in the new table, and every other byte of the program stays as it was.
 Nothing inside a switch table is taken for an instruction; a program that cannot be walked to its end keeps its keys and its whole table.""",
 ["programs"], "all bytecode, all string tables",
 "Key operands sit at different places of some 40 instructions, next to operands of every length; a wrong walk shows only for the combination concerned.",
 ["src/compiler/cndc.c", "src/vm/cnd_il_layout.h"], [("walk_keys, optimize_strings", "src/compiler/cndc.c"), ("cnd_il_key_offset", "src/vm/cnd_il_layout.h")], observe=["bytecode and string table of the image"])
prop("C21", "Inlining a struct prefixes its keys and copies everything else",
 """When a struct's body is inlined under a field name, the copy has the same size, every key operand of every instruction (both of a dynamic array) becomes the key of field name, dot and old name, and every other byte, the inside of switch tables included, is copied unchanged in order;
 the original stays as it is. Names that would exceed 511 characters keep their old name.""",
 ["programs"], "all struct bodies, names and prefixes",
 "As for renumbering: every instruction kind in every position, and name lengths at the limit.",
 [UT, "src/vm/cnd_il_layout.h"], [("buf_append_with_prefix, prefixed_key", UT)], observe=["bytecode appended", "names in the string table"])
CC, CP = "src/compiler/cndc.c", "src/compiler/cnd_parser.c"
prop("C23", "A compiled schema means what its source says",
 """For every schema the compiler accepts, executing the emitted bytecode gives each field the type, byte order, array shape, condition, transform and checks written in the source, in source order; a schema it cannot translate faithfully is refused with a message.""",
 ["programs"], "all schemas", "Tests compile some dozens of schemas; combinations of decorators, nesting and expressions are unbounded.",
 [CP, "src/compiler/cnd_lexer.c", CC], [("parse_struct, parse_field, expression parser", CP)], observe=["emitted bytecode"])
prop("C24", "The JSON and Go bindings transfer every value unchanged",
 """Encoding a document through the command line tool or the Go binding and decoding the result gives the same document, for every schema and every document that fits it.""",
 ["inputs", "programs"], "all schemas and documents", "Values beyond the precision of a double, nested arrays, byte blocks and strings combine without bound.",
 ["src/cli", "go"], [("JSON callbacks", "src/cli"), ("Go marshalling", "go")], observe=["JSON documents", "Go values"])
