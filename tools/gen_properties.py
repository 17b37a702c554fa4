#!/usr/bin/env python3
"""Writes properties.jsonl (the prose lives here so that it stays readable)."""
import json, os
VM = "src/vm/vm_exec.c"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or ["cnd_execute return value", "host callback arguments", "bytes of the data buffer"], "hook_needed": hook}})

prop("C01", "Executing any bytecode on any data is memory safe",
 """For every byte string given as a program, every data buffer and every behaviour of the host callback, encoding and decoding never read or write outside
 the bytecode, the data buffer, the host's strings and the interpreter's own state, never overflow the array or expression stacks, and never trap or divide by zero.
 Every run that ends returns one of the documented error codes.""",
 ["programs", "inputs", "histories"], "all bytecode, all data of all lengths, all callback results and values, all mode/endianness/transform/optional/loop/stack states",
 "Tests run a few dozen compiled schemas and short hand-made images; hostile operands, offsets, counts and every reachable interpreter state cannot be sampled.",
 [VM, "src/vm/vm_internal.h"], [("operand fetch, cursor and stack bound checks", VM), ("read_bits / write_bits", "src/vm/vm_internal.h")],
 state=[("ctx.cursor/bit_offset", "position in the data", "include/concordia.h"), ("ctx.loop_stack", "open arrays", "include/concordia.h"), ("ctx.expr_stack", "expression operands", "include/concordia.h")], hook="CND_FETCH_OP (guarded by CND_CONTRACTS)")
prop("C02", "Plain scalar fields have exactly the documented wire format",
 """An integer, float or bool field with no pending transform occupies exactly its type's width at the next whole byte, holds the value's two's complement or IEEE bytes in the
 byte order currently selected, and decoding hands the host exactly the value those bytes encode, so decoding what was encoded yields the same value.
 A bool other than 0 or 1 is refused with a validation error both ways, and the byte order instructions affect only the fields after them.""",
 ["inputs", "programs", "histories"], "all values of all ten numeric types and bool, both byte orders, both modes, every cursor position and preceding state",
 "Tests check a handful of values per type; an error for particular byte values, sign bits or positions stays invisible.",
 [VM, "src/vm/vm_internal.h"], [("HANDLE_PRIMITIVE and the read_/write_ helpers", VM)])
prop("C03", "Truncated messages are reported, never half-processed",
 """When fewer bytes remain than a field needs, encoding and decoding stop with the out-of-bounds error without handing the host a value for that field and without modifying any data for it
 (an encoding array, string or bit field may have asked the host first).
 If the field is a scalar, bit field or length-prefixed string marked optional, decoding instead hands the host zero or the empty string, consumes no data and goes on behind the field, with the optional marker and any pending transform used up.""",
 ["inputs", "crash_points"], "every truncation point of every field kind, with and without the optional marker, any preceding state",
 "Tests truncate a few messages at one or two points; each field kind has its own bounds check and its own missing-field path.",
 [VM], [("bounds checks of every field instruction", VM), ("is_next_optional", VM)])
prop("C04", "Bit fields are packed bit-exactly",
 """A bit field of n bits (up to 64) occupies exactly the next n bits in the current byte order's bit numbering; encoding stores every bit of the value there and leaves all neighbouring bits of shared bytes unchanged, decoding returns exactly those bits, zero-extended or sign-extended.
 Padding skips (and when encoding zeroes) its bits, filling writes the rest of the current byte with the fill bit, and leaving bit mode in the middle of a byte is a validation error; a wider field than 64 bits is refused and one that does not fit is out of bounds.""",
 ["inputs", "programs", "histories"], "all widths, values, start bits and positions, both byte orders, both modes, all contents of the surrounding bytes",
 "64 widths x 8 offsets x 2 orders x all values with all neighbouring contents; tests try a few widths.",
 [VM, "src/vm/vm_internal.h"], [("read_bits / write_bits", "src/vm/vm_internal.h"), ("OP_IO_BIT_*, OP_ALIGN_*", VM)])
prop("C05", "Const, range and enum checks accept exactly the allowed values",
 """A const field writes exactly its constant when encoding and, when decoding, fails with a validation error unless the data hold it; a range check passes exactly when the field just processed lies within both limits under its own type's ordering (signed, unsigned or floating point, NaN never);
 an enum check passes exactly when that field equals one of the listed values, for lists of any length. Passing a check changes nothing but the position in the program.""",
 ["inputs", "programs"], "all operand types, all limits and enumerations of every length, all field values, both byte orders and modes",
 "Boundary behaviour of ten types and list membership at every index cannot be sampled.",
 [VM], [("OP_CONST_CHECK, CHECK_RANGE, CHECK_ENUM", VM)])
prop("C06", "Checksums are the configured CRC of all preceding bytes",
 """A checksum field is the CRC-16 or CRC-32 given by its polynomial, initial value, final xor and reflection flags (the Rocksoft parametrised model) over all data bytes before it: encoding stores it in the current byte order, and decoding fails with the checksum error exactly when the stored value differs.
 This holds for every parameter set, including those served by the table-driven path.""",
 ["inputs", "configurations"], "data of every length and content, every polynomial/initial/xor/flag combination, both widths, byte orders and modes",
 "Tests check a few standard CRCs on short strings; 2^97 parameter sets and all message contents remain.",
 [VM], [("calc_crc, crc32_table, reflect", VM), ("OP_CRC_16 / OP_CRC_32", VM)])
prop("C07", "Value transforms are applied exactly, in the right direction",
 """For a field with a pending transform, decoding hands the host the transform of the raw value as a double (scale, polynomial, spline) or wrapping 64-bit integer (add, sub, mul, div), and encoding stores the inverse applied to the host's value, truncated to the field's type.
 Where a floating point result does not fit the field's type, the operation fails with the arithmetic error instead of storing something else. A transform applies to exactly the next scalar field. A polynomial is evaluated by Horner's rule and inverted by at most 20 Newton steps from zero; a spline is piecewise linear through its points, its last segment extrapolating, and inverted on the first segment whose ends enclose the value.""",
 ["inputs", "programs"], "all transform kinds and parameters, all ten numeric field types, all raw and host values, both modes and byte orders; any number of coefficients or points",
 "Rounding, wrap-around, sign and out-of-range cases for 7 transforms x 10 types x 2 directions.",
 [VM], [("vm_math_*", VM), ("HANDLE_PRIMITIVE transform branches", VM)])
prop("C08", "Expressions compute the documented operation on a bounded stack",
 """Every expression instruction pops its operands and pushes its result: arithmetic, bitwise, comparison and logical operators work on unsigned 64-bit values (wrapping; shifts of 64 or more give zero), the float operators on IEEE doubles, and values pushed, popped, duplicated, swapped, loaded from and stored to the host are passed unchanged, leaving the rest of the stack alone.
 Too few operands, a full stack, division by zero, and arguments outside the domain of sqrt, log or float-to-int conversion give the underflow, overflow and arithmetic errors.""",
 ["inputs", "histories"], "all operand values and all stack depths for each of the operators",
 "Each operator over 2^128 operand pairs at nine stack depths; tests use a few constants.",
 [VM], [("stack_push/stack_pop and the ALU opcodes", VM)])
prop("C09", "Jumps and switches go exactly where the program says",
 """A jump continues at its offset from the end of the instruction, a conditional jump does so exactly when the popped value is zero; a switch goes to the target of the first case equal to the discriminator the host supplies, and to the default only if no case matches; a table switch goes to the entry for the discriminator, and to the default exactly outside its range.
 A target or a table that is not entirely within the program is reported as out of bounds, and nothing but the position in the program changes.""",
 ["inputs", "programs"], "all offsets, all case lists of every length, all discriminators, every table position",
 "Case lists of any length with duplicates, 64-bit discriminators and wrap-around in offsets.",
 [VM], [("OP_JUMP, OP_JUMP_IF_NOT, OP_SWITCH, OP_SWITCH_TABLE", VM)])
prop("C10", "Arrays run their body exactly once per element",
 """An array's count is written and read exactly in its prefix format, agreed with the host or referenced field, and its body is executed exactly that many times, or until the data end for an open-ended array; an empty array continues behind the end of its body (which may contain nested arrays and switches).
 Elements may be handed over as one block of bytes only for an array of plain bytes, and then the block is exactly the array's bytes. Nesting deeper than the limit, or an end without a start, is an error.""",
 ["inputs", "programs", "histories"], "all counts of all prefix sizes, nesting depths, bodies, data ends",
 "Counts up to 2^32-1, every nesting depth and arbitrary bodies cannot be enumerated by tests.",
 [VM, "src/vm/cnd_il_layout.h"], [("HANDLE_ARRAY_PRE, OP_ARR_*", VM), ("skip_loop_body", VM), ("try_optimize_byte_array", VM)])
prop("C11", "Strings keep their characters, length and limit",
 """A length-prefixed string is stored as its length in the current byte order followed by exactly its characters; a null-terminated one as its characters and one zero byte, cut to the maximum length; an absent string is stored as empty and one longer than its limit is cut to it.
 Decoding hands the host the address of the first character in the data, and moves exactly behind the string; a terminator is searched only within the maximum length and the data, and its absence is an error.""",
 ["inputs"], "all strings of all lengths, prefixes, limits, data contents and positions, both byte orders",
 "String and prefix lengths up to 2^32 and every truncation point; tests use short strings that fit.",
 [VM], [("HANDLE_STRING_PRE, OP_STR_NULL", VM)])
prop("C12", "Computed fields hold the computed value",
 """A computed field stores the popped expression value converted to its type at the next whole byte in the current byte order when encoding; when decoding it fails with a validation error exactly when the stored value differs from the computed one (for floats: by more than the documented tolerance).
 An empty expression stack, a type without a size, or missing room are errors.""",
 ["inputs"], "all values, field types, byte orders, modes and positions",
 "All value/type combinations including truncation to the field's width.",
 [VM], [("OP_EMIT", VM)])
prop("C13", "Modifiers and structure instructions change only what they name",
 """Selecting a byte order changes only the byte order, marking the next field optional only that marker, and a transform instruction installs exactly the transform and operands in the program; entering and leaving a struct only inform the host with the struct's key.
 Metadata instructions and unassigned opcodes have no effect except to be skipped.""",
 ["programs", "histories"], "all interpreter states and operand values",
 "A modifier that disturbs unrelated state shows only in combinations tests do not form.",
 [VM], [("OP_SET_ENDIAN_*, OP_MARK_OPTIONAL, OP_TRANS_*, OP_SCALE_LIN, OP_ENTER_STRUCT, OP_EXIT_STRUCT", VM)])
prop("C14", "Host protocol: decoding never writes, errors propagate, nothing else changes",
 """Decoding never modifies a byte of the message (programs from the compiler contain no unconditional constant write), and encoding modifies only the bytes of the field being processed; the program, buffers, mode, callback and user pointer of a context are never altered.
 The host is called with the field's own key and type, exactly as often as the field requires; once a call fails, the run ends with the callback error and the host is not called again (an optional string the host does not have is omitted instead), and the state of other open arrays and stack entries is left alone.""",
 ["inputs", "programs", "histories", "fault_sequences"], "all instructions, all callback failures at every call, all interpreter states",
 "A stray write or a swallowed error at one of some 130 instructions, for a particular state or fault, is not observable in example-based tests.",
 [VM], [("io_callback call sites", VM)])
prop("C16", "Everything that walks bytecode agrees with the interpreter",
 """The shared description of instruction lengths accepts an instruction exactly when all its operands are present and valid, and gives exactly the number of bytes the interpreter consumes executing it.
 The verifier therefore accepts only programs whose instructions, jump targets and switch tables all lie within the program.""",
 ["programs"], "every opcode, operand and position, complete or truncated",
 "The same table is encoded twice (interpreter and layout); a disagreement shows only for the opcode concerned, in walks that step over it.",
 ["src/vm/cnd_il_layout.h", "src/vm/vm_verify.c", VM], [("cnd_il_instr_len", "src/vm/cnd_il_layout.h"), ("cnd_verify_program", "src/vm/vm_verify.c")], observe=["cnd_il_instr_len", "cnd_verify_program", "instruction pointer"])

exec(open(os.path.join(os.path.dirname(__file__), "more_properties.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "more_properties.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
