"""Which contracts (obligations) decide which property."""
from engine import Job, REPO

STUBS = [("calc_crc", "stub_calc_crc"), ("skip_loop_body", "stub_skip_loop_body"), ("read_bits", "stub_read_bits"), ("write_bits", "stub_write_bits"),
         ("vm_math_poly_eval", "stub_poly_eval"), ("vm_math_poly_solve", "stub_poly_solve"), ("vm_math_spline_eval", "stub_spline_eval"), ("vm_math_spline_solve", "stub_spline_solve")]

TRUSTED = [
    "CBMC 6.11 (C semantics, verification condition generation, loop-contract instrumentation), CaDiCaL, z3, cvc5",
    "goto-instrument --replace-calls: a call to a helper is replaced by that helper's contract, which is proved by its own job",
    "libc contracts: memcpy of variable length (copies the region; instantiated at one arbitrary byte), memchr, strlen, malloc; sin/cos/tan/log/sqrt/fabs/pow are uninterpreted",
]
ASSUMPTIONS = [
    "64-bit little-endian host, IEEE-754 doubles, gcc ABI (the data model CBMC is run with)",
    "the host callback returns a documented error code, writes only through the value pointer, and does not modify the context",
    "bytecode, data and host strings are at most 2^40 bytes long",
]

# tags of harness/vm_step.c
MEM, PRIM, OPT, BITS, VALID, CRC, TRANS, ALU, FLOW, ARR, STR, EMIT, MOD, CB, LAYOUT, FRAME, META = (1 << i for i in range(17))
ALLSEM = 0x1BFFE

NAMES = {}
import re as _re
for _l in open(f"{REPO}/include/concordia.h"):
    _m = _re.match(r"#define\s+(OP_\w+)\s+(0x[0-9A-Fa-f]+)", _l)
    if _m:
        NAMES.setdefault(int(_m.group(2), 16), _m.group(1))


def vm(op, tags, fn="cnd_execute (one instruction)", timeout=300, checks=None, what="", bounded=None, cbmc=(), backend="sat", stubs=True, loops=(), unwind=70, name="", **defs):
    d = {"OPC": hex(op), "TAGS": hex(tags)}
    d.update({k: str(v) for k, v in defs.items()})
    nm = f"{op:02x} {NAMES.get(op, 'unassigned')}" + "".join(f" {k}={v}" for k, v in defs.items()) + name
    return Job(nm, "vm_step.c", d, checks=bool(tags & MEM) if checks is None else checks, unwind=unwind, stubs=STUBS if stubs else [], timeout=timeout, code=["vm_code.c"],
               backend=backend, loops=loops, cbmc=cbmc, bounded=bounded, function=[fn], contract=f"instruction contract of opcode 0x{op:02X} {NAMES.get(op, '(unassigned)')}" + (f" ({what})" if what else ""))


MODES = ({"MODE": 0}, {"MODE": 1})
INT_OPS = list(range(0x10, 0x18))
PRIMS = list(range(0x10, 0x1B))
BIT_OPS = list(range(0x20, 0x27))
STR_OPS = [0x30, 0x31, 0x32, 0x33]
ARR_OPS = [0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B]
ALU_OPS = list(range(0x60, 0x65)) + list(range(0x69, 0x74)) + [0x77, 0x78, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8B] + list(range(0x90, 0x98)) + list(range(0xA0, 0xA6))
META_OPS = list(range(0x00, 0x08)) + [0x43, 0x45, 0x46, 0x47, 0x48, 0x4A, 0x4C, 0x4D]


def bits_helpers():
    return [Job("read_bits", "bits.c", {"N0": 0, "N1": 64}, checks=True, unwind=70, loops=["read_bits"], timeout=240, function=["read_bits"], contract="read_bits returns exactly the stored bits"),
            Job("write_bits", "bits.c", {"N0": 0, "N1": 255, "WRITE": 1}, checks=True, unwind=260, loops=["write_bits"], timeout=240, function=["write_bits"], contract="write_bits stores exactly the bits")]


def crc_helpers():
    return [Job(f"calc_crc {w}", "crc.c", {"WIDTH": w}, unwind=70, loops=["crc"], inner={"calc_crc": 9, "reflect": 33, "h_crc_step": 9}, timeout=300, function=["calc_crc", "reflect"],
                contract=f"calc_crc is the Rocksoft CRC-{w}") for w in (16, 32)]


VM_C, VERIFY_C = f"{REPO}/src/vm/vm_exec.c", f"{REPO}/src/vm/vm_verify.c"


def math_helpers(tags=(1, 2)):
    what = {"poly_eval": "Horner's rule from the highest coefficient", "poly_solve": "at most 20 Newton steps from zero, stopping within 0.001 or at a zero derivative",
            "spline_eval": "the first enclosing segment, the last one extrapolating", "spline_solve": "the first enclosing segment, inverted"}
    return [Job(f"vm_math_{n}" + (" memory safety" if k == 2 else ""), "math.c", {"FN": i + 1, "TAGS": k}, checks=k == 2, unwind=24, loops=[n] + (["poly_newton"] if n == "poly_solve" else []), timeout=300,
                split=[VM_C], backend="uf" if k == 1 else "sat", function=["vm_math_" + n], contract=f"vm_math_{n}: " + what[n]) for i, n in enumerate(what) for k in tags]


def skip_helper():
    return [Job("skip_loop_body", "skip.c", {}, checks=True, unwind=30, loops=["skip_body"], timeout=300, split=[VM_C], function=["skip_loop_body"],
                contract="skip_loop_body moves just past the matching ARR_END by whole instructions, stepping over inline switch tables")]


def layout_helpers():
    return [Job("cnd_il_instr_len", "layout.c", {"FN": 1}, checks=True, unwind=10, function=["cnd_il_instr_len", "cnd_il_type_size"], contract="cnd_il_instr_len is the documented instruction length")] + \
           [Job(f"cnd_il_switch_table {o}", "layout.c", {"FN": 2, "OP": o}, checks=True, unwind=10, timeout=400, function=["cnd_il_switch_table"], contract="cnd_il_switch_table is the table as cnd_execute reads it") for o in ("OP_SWITCH", "OP_SWITCH_TABLE")]


def verify_jobs():
    what = {4: "the walk visits every instruction and steps over every table", 1: "every visited instruction and jump target is good if the program is accepted", 2: "memory safety"}
    return [Job(f"cnd_verify_program: {what[t]}", "verify.c", {"TAGS": t}, checks=t == 2, unwind=40, loops=["verify_walk"], timeout=500, split=[VERIFY_C], function=["cnd_verify_program"],
                contract="cnd_verify_program: " + what[t]) for t in (2, 1, 4)]


def strtab_jobs(which):
    fn = {1: ("cnd_program_load_il", ["load_strings"], 30), 2: ("cnd_get_key_name", ["key_name"], 30), 3: ("cnd_get_key_id", ["key_id"], 30), 4: ("cnd_init, cnd_program_load", [], 500)}
    return [Job(fn[i][0], "strtab.c", {"FN": i}, checks=True, unwind=fn[i][2], loops=fn[i][1], timeout=300, split=[VM_C], function=fn[i][0].split(", "), contract=fn[i][0]) for i in which]


def c15(tier):
    return strtab_jobs((1, 2, 3))


def c17(tier):
    return strtab_jobs((4,))


UTIL = {1: ("buf_append", []), 2: ("buf_push, buf_push_u16, buf_push_u32, buf_push_u64", []), 3: ("buf_write_u8_at, buf_write_u16_at, buf_write_u32_at", []), 4: ("buf_init, buf_current_offset", []),
        5: ("strtab_add", ["strtab_add"]), 6: ("parse_number_u32", ["hex32", "dec32"]), 7: ("parse_number_i64", ["hex64", "dec64"])}


def util_jobs(which):
    return [Job(UTIL[i][0], "util.c", {"FN": i}, checks=True, unwind=50, loops=UTIL[i][1], timeout=400, function=UTIL[i][0].split(", ") + (["hex_char_to_int"] if i > 5 else []), contract=UTIL[i][0]) for i in which]


def c18(tier):
    return util_jobs((1, 2, 3, 4))


def c19(tier):
    return util_jobs((5,))


CNDC, UTILS = f"{REPO}/src/compiler/cndc.c", f"{REPO}/src/compiler/cnd_utils.c"
COMPILER = [f"{REPO}/src/compiler/{n}.c" for n in ("cnd_lexer", "cnd_parser")]
WALK_INNER = {"walk_keys": 4, "buf_append_with_prefix": 4, "stub_instr_len": 7}


def c20(tier):
    js = [Job(f"walk_keys {w}", "keys.c", {"FN": f}, checks=True, unwind=30, loops=["walk_keys"], inner=WALK_INNER, timeout=400, split=[CNDC], native_links=COMPILER, function=["walk_keys", "cnd_il_key_offset"],
              contract=f"walk_keys {w} exactly the key operands") for f, w in ((1, "marks"), (2, "renumbers"))]
    return js + [Job("optimize_strings", "keys.c", {"FN": 4}, checks=True, unwind=30, loops=["optimize_map"], timeout=300, split=[CNDC], native_links=COMPILER, function=["optimize_strings"],
                     pre=[("walk_keys", "stub_walk_keys"), ("strtab_add", "stub_add"), ("strtab_init", "stub_strtab_init")], contract="optimize_strings renumbers keys to the new table's indices")] + util_jobs((5,))


def c21(tier):
    return [Job("buf_append_with_prefix", "keys.c", {"FN": 3}, checks=True, unwind=30, loops=["prefix_walk"], inner=WALK_INNER, timeout=400, split=[UTILS], function=["buf_append_with_prefix", "cnd_il_key_offset"],
                pre=[("buf_append", "stub_append"), ("buf_push", "stub_push"), ("buf_push_u16", "stub_push_u16"), ("prefixed_key", "stub_prefixed")], contract="buf_append_with_prefix replaces exactly the key operands"),
            Job("prefixed_key", "util.c", {"FN": 8}, checks=True, unwind=50, backend="smt", stubs=[("strtab_add", "stub_strtab_add")], timeout=300, function=["prefixed_key"], contract="prefixed_key interns prefix, dot, name")] + util_jobs((1, 2, 5))


def c22(tier):
    return util_jobs((6, 7))


def c02(tier):
    js = []
    for op in PRIMS:
        js += [vm(op, PRIM | OPT | MOD, what="no transform", TRANS=0, **m) for m in MODES]
    js += [vm(op, META | MOD) for op in (1, 2)]
    return js


def c04(tier):
    js = bits_helpers()
    for op in BIT_OPS:
        js += [vm(op, BITS | OPT | MOD, **m) for m in MODES]
    return js


def c06(tier):
    return crc_helpers() + [vm(op, CRC, **m) for op in (0x44, 0x49) for m in MODES]


def c08(tier):
    return [vm(op, ALU) for op in ALU_OPS]


UF_ALU = [0x74, 0x75, 0x76, 0x80, 0x81, 0x82, 0x83]


def c08(tier):
    return [vm(op, ALU) for op in ALU_OPS] + [vm(op, ALU, backend="uf") for op in UF_ALU]


def c03(tier):
    js = []
    for op in PRIMS + BIT_OPS[:4] + STR_OPS + [0x35, 0x36, 0x37, 0x39, 0x40, 0x44, 0x49, 0x65]:
        tag = PRIM | OPT if op in PRIMS else BITS | OPT if op in BIT_OPS else STR | OPT if op in STR_OPS else ARR if op in ARR_OPS else VALID if op == 0x40 else CRC if op in (0x44, 0x49) else EMIT
        js += [vm(op, tag, what="truncated data", SHORT=1, backend="uf" if op in PRIMS else "sat", **m) for m in MODES]
    return js


def itypes(op, tag, types, modes=MODES, **kw):
    return [vm(op, tag, ITYPE=hex(t), **m, **kw) for t in types for m in modes]


def c05(tier):
    js = itypes(0x40, VALID, INT_OPS) + itypes(0x42, VALID, range(0x10, 0x1A), modes=({},), backend="smt") + [vm(0x1A, PRIM, **m) for m in MODES]
    js += itypes(0x4B, VALID, INT_OPS, modes=({},), loops=["enum_check"])
    return js


def c07(tier):
    js = math_helpers()
    for op in range(0x10, 0x1A):
        for t in range(1, 8):
            for m in MODES:
                be = "ufi" if op == 0x18 and m["MODE"] and t in (4, 5) else "uf" if t in (1, 4, 5) else "sat"
                split = ({"ENDIAN": 0}, {"ENDIAN": 1}) if t in (4, 5) and not m["MODE"] and op in (0x12, 0x13, 0x16, 0x17, 0x18, 0x19) else ({},)
                js += [vm(op, TRANS | MOD, TRANS=t, backend=be, **m, **e) for e in split]
    return js + [vm(op, META | MOD) for op in (0x43, 0x45, 0x46, 0x47, 0x48, 0x4C, 0x4D)]


def c09(tier):
    return [vm(op, FLOW, **m) for op in (0x50, 0x52, 0x53) for m in MODES] + \
           [vm(0x51, FLOW, loops=["switch_cases"], timeout=500, **m) for m in MODES]


def c10(tier):
    return skip_helper() + [vm(op, ARR, **m) for op in ARR_OPS for m in MODES]


def c11(tier):
    return [vm(op, STR | OPT, **m) for op in STR_OPS for m in MODES]


def c12(tier):
    return itypes(0x65, EMIT, list(range(0x10, 0x1B)))


def c13(tier):
    return [vm(op, META | MOD) for op in META_OPS + [0x4A]]


def c01(tier):
    js = [vm(0x51, MEM, loops=["switch_cases"], timeout=500, **m) for m in MODES]
    js += [vm(0x42, MEM, ITYPE=hex(t), timeout=400) for t in range(0x10, 0x1A)] + [vm(0x42, MEM, ITYPE_OTHER="0x19")]
    js += [vm(0x4B, MEM, ITYPE=hex(t), loops=["enum_check"], timeout=400) for t in INT_OPS] + [vm(0x4B, MEM, ITYPE_OTHER="0x17", loops=["enum_check"])]
    js += bits_helpers() + math_helpers((2,)) + skip_helper()
    known = [o for o in sorted(NAMES) if o not in (0x42, 0x4B, 0x51)]
    js += [vm(o, MEM) for o in known]
    rest = [o for o in range(256) if o not in NAMES]
    return js + [vm(o, MEM) for o in (rest if tier == "thorough" else rest[::16])]


def c14(tier):
    js = [vm(0x51, CB | FRAME, loops=["switch_cases"], timeout=500)]
    js += [vm(0x42, CB | FRAME, ITYPE=hex(t), backend="smt") for t in range(0x10, 0x1A)]
    js += [vm(0x4B, CB | FRAME, ITYPE=hex(t), loops=["enum_check"]) for t in INT_OPS]
    js += [vm(o, CB | FRAME, backend="uf", **m) for o in PRIMS for m in MODES]
    js += [vm(o, CB | FRAME, **m) for o in BIT_OPS + STR_OPS + ARR_OPS + [0x40, 0x41, 0x44, 0x49, 0x65] for m in MODES]
    js += [vm(o, CB | FRAME) for o in META_OPS + [0x50, 0x52, 0x53] + ALU_OPS] + [vm(o, CB | FRAME, backend="uf") for o in UF_ALU]
    return js


def c16(tier):
    known = [o for o in sorted(NAMES) if o not in (0x4B, 0x51)]
    js = verify_jobs() + layout_helpers()
    js += [vm(0x4B, LAYOUT, loops=["enum_check"], ITYPE=hex(t)) for t in INT_OPS] + [vm(0x51, LAYOUT, loops=["switch_cases"])]
    rest = [o for o in range(256) if o not in NAMES]
    return js + [vm(o, LAYOUT) for o in known] + [vm(o, LAYOUT) for o in rest[::16]]


HOOK_COMMITS = ["bdd1777", "ae2e717", "20911d2", "1d85c80"]
_ONE = "Every listed instruction is proved from an arbitrary interpreter state satisfying the invariant (which C01 proves preserved), so it holds in every execution; "
_TB = "trusts CBMC's C semantics, the SAT/SMT solvers and the libc contracts listed in the evidence."

PROPS = {
    "C01": dict(jobs=c01, level="proof", note=_ONE + "pointer, bounds, overflow, conversion and division checks for all 256 opcodes (quick: a sample of the unassigned ones, which share one code path); termination is not claimed; " + _TB),
    "C02": dict(jobs=c02, level="proof", note=_ONE + _TB),
    "C03": dict(jobs=c03, level="proof", note=_ONE + "floating point and 64-bit multiplication/division are uninterpreted in the scalar cases (stronger obligations); " + _TB),
    "C04": dict(jobs=c04, level="proof", note=_ONE + "read_bits/write_bits by loop invariants, unbounded; " + _TB),
    "C05": dict(jobs=c05, level="proof", note=_ONE + "enumerations of any length by loop invariants; " + _TB),
    "C06": dict(jobs=c06, level="proof", note=_ONE + "calc_crc proved equal to the bitwise Rocksoft model for every length by loop invariants over a ghost register; " + _TB),
    "C07": dict(jobs=c07, level="proof", note=_ONE + "floating point and 64-bit multiplication/division are uninterpreted where listed (stronger obligations); " + _TB),
    "C08": dict(jobs=c08, level="proof", note=_ONE + "libm functions are uninterpreted; " + _TB),
    "C09": dict(jobs=c09, level="proof", note=_ONE + "case lists of any length by loop invariants; " + _TB),
    "C10": dict(jobs=c10, level="proof", note=_ONE + _TB),
    "C11": dict(jobs=c11, level="proof", note=_ONE + "memcpy/memchr/strlen by contract, instantiated at an arbitrary byte; " + _TB),
    "C12": dict(jobs=c12, level="proof", note=_ONE + _TB),
    "C13": dict(jobs=c13, level="proof", note=_ONE + _TB),
    "C14": dict(jobs=c14, level="proof", note=_ONE + _TB),
    "C16": dict(jobs=c16, level="proof", note=_ONE + _TB),
    "C15": dict(jobs=c15, level="proof", note="All images and tables of every size, by loop invariants over a ghost walk of the strings; memchr and strcmp by contract; lookups assume a loaded table (every string terminated inside it), as loading guarantees; " + _TB),
    "C17": dict(jobs=c17, level="proof", note="One straight-line contract: all previous memory contents of a repeating 8-byte pattern, all arguments; " + _TB),
    "C18": dict(jobs=c18, level="proof", note="All sizes up to 2^40 bytes, at an arbitrary byte; realloc and memcpy by contract, allocation does not fail; " + _TB),
    "C19": dict(jobs=c19, level="proof", note="All tables of up to 65535 strings before the call, by a loop invariant; realloc, memcpy, strlen and strncmp by contract, allocation does not fail; " + _TB),
    "C20": dict(jobs=c20, level="proof", note="Programs below 2^31 bytes and tables of up to 65536 strings, by loop invariants at an arbitrary byte and an arbitrary string; instruction lengths and switch tables by the contracts proved under C16, strtab_add by the one proved here; " + _TB),
    "C21": dict(jobs=c21, level="proof", note="Programs below 2^31 bytes, by a loop invariant at an arbitrary byte; instruction lengths and switch tables by the contracts proved under C16; names up to 2^29 bytes; " + _TB),
    "C22": dict(jobs=c22, level="proof", note="Literals of every length below 2^31, by loop invariants over a ghost value; floating point literals (strtod) are not covered; " + _TB),
}
import json as _json, os as _os
for _l in open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "..", "properties.jsonl")):
    _p = _json.loads(_l)
    if _p["id"] in PROPS:
        PROPS[_p["id"]]["title"] = _p["title"]
NOT_APPLICABLE = {
    "C23": "the oracle would be a formal semantics of the schema language, which the repository does not define apart from the parser itself; the parser is 1700 lines of recursive descent over heap-allocated, aliased structures and printf/file I/O, beyond function contracts CBMC can discharge without bounds. Its building blocks are under contract (C18 to C22), and what the bytecode then does is C01 to C14.",
    "C24": "the JSON and Go bindings convert through cJSON trees and Go reflection: no contract verifier here accepts Go, and unbounded heap trees need separation-logic predicates CBMC does not have. The VM side of the exchange is C02 to C14.",
}
