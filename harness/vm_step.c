/* Contract of one VM instruction (opcode OPC), checked on the real cnd_execute.
 *
 *   requires  Inv(ctx), any bytecode, any data, any host callback behaviour
 *   ensures   Inv(ctx) at the next instruction boundary, and the instruction's
 *             postcondition (spec_* below) there or at the return.
 *
 * Since Inv holds initially (contract of cnd_init) and each instruction preserves
 * it, the postconditions hold for every instruction of every execution.
 *
 * -DOPC=..   opcode           -DTAGS=..  which obligations to generate
 * -DNATIVE   (no CBMC)        replays a counterexample against the same code
 */
#include "concordia.h"
#include "nd.h"

enum {
    T_MEM = 1, T_PRIM = 2, T_OPT = 4, T_BITS = 8, T_VALID = 0x10, T_CRC = 0x20, T_TRANS = 0x40, T_ALU = 0x80,
    T_FLOW = 0x100, T_ARR = 0x200, T_STR = 0x400, T_EMIT = 0x800, T_MOD = 0x1000, T_CB = 0x2000, T_LAYOUT = 0x4000,
    T_FRAME = 0x8000, T_META = 0x10000
};

const uint8_t* g_bc; size_t g_x, g_xp, g_at, g_ata, g_elems; uint64_t g_xv, g_atv; uint32_t g_ato; /* ghosts of the membership loops, see loops.h */
#include "cnd_contracts.h"
#include "cnd_il_layout.h"
#undef memcpy
#undef memchr
#undef strlen
#undef sin
#undef cos
#undef tan
#undef log
#undef sqrt
#undef fabs
#undef pow

#ifndef ENUM_MAX
#define ENUM_MAX 3
#endif
#ifndef SWITCH_MAX
#define SWITCH_MAX 3
#endif
#ifndef BCAP
#define BCAP 48 /* sizes in bounded (replay) mode */
#endif
#ifndef DCAP
#define DCAP 24
#endif
#define HCAP 10

int h_steps;
static cnd_vm_ctx C, S;         /* the context, and its state before the instruction */
static cnd_program P;
static uint8_t* BC; static size_t BL, IP0;
static uint8_t* D; static size_t DL;
static size_t GI; static uint8_t GOLD; /* ghost byte of the data buffer, and its old value */
static size_t GE, GL;            /* ghost expression stack slot / loop frame */
static uint64_t GEV; static cnd_loop_frame GLV;
static char* HS; static size_t HL; static bool HS_null; /* the string the host supplies */
static size_t PREN; static uint8_t PRE[24]; /* old bytes at aligned cursor - 8 .. + 15 */

/* --- host callback --- */
typedef struct { uint16_t key; uint8_t type; void* ptr; uint64_t in, out; cnd_error_t err; size_t cursor; bool in_buf; } h_call;
#define MAXCB 3
static h_call CB[MAXCB]; static int ncb;
static unsigned GB; /* ghost bit index */
static int bit_at(uint8_t byte, unsigned pos) { return (byte >> (S.endianness == CND_LE ? pos : 7 - pos)) & 1; }
static uint64_t crec_count; /* count announced by the last array callback */

static int cb_size(uint8_t t) {
    switch (t) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1;
        case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: return 2;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4;
        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I:
        case OP_CTX_QUERY: case OP_LOAD_CTX: case OP_STORE_CTX: return 8;
        default: return 0;
    }
}
static bool is_str(uint8_t t) { return t >= OP_STR_NULL && t <= OP_STR_PRE_U32; }
static uint32_t opnd(size_t at, int n) { /* little-endian operand, n <= 4 */
    uint32_t v = 0;
    for (int i = 0; i < 4; i++) if (i < n && at + i < BL - IP0) v |= (uint32_t)BC[IP0 + at + i] << (8 * i);
    return v;
}
static uint64_t opnd64(size_t at) {
    return (uint64_t)opnd(at, 4) | ((uint64_t)opnd(at + 4, 4) << 32);
}
static uint64_t load_n(const void* p, int n) {
    if (n == 1) return *(const uint8_t*)p;
    if (n == 2) return *(const uint16_t*)p;
    if (n == 4) return *(const uint32_t*)p;
    return *(const uint64_t*)p;
}
static void store_n(void* p, int n, uint64_t v) {
    if (n == 1) *(uint8_t*)p = (uint8_t)v;
    else if (n == 2) *(uint16_t*)p = (uint16_t)v;
    else if (n == 4) *(uint32_t*)p = (uint32_t)v;
    else *(uint64_t*)p = v;
}
static uint64_t low_n(uint64_t v, int n) { return n >= 8 ? v : v & (((uint64_t)1 << (8 * n)) - 1); }

#ifdef __CPROVER__
#define W_OK(p, n) __CPROVER_w_ok((p), (n))
#define R_OK(p, n) __CPROVER_r_ok((p), (n))
#else
#define W_OK(p, n) 1
#define R_OK(p, n) 1
#endif
#define IN_BUF(p, n) ((uint8_t*)(p) >= D && (size_t)((uint8_t*)(p) - D) <= DL && (n) <= DL - (size_t)((uint8_t*)(p) - D))

cnd_error_t h_callback(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* ptr) {
    CK(T_CB, ctx == &C && ctx->user_ptr == S.user_ptr, "callback receives the executing context");
    CK(T_CB, ncb == 0 || CB[ncb - 1].err == CND_ERR_OK || is_str(CB[ncb - 1].type) || CB[ncb - 1].type == OP_RAW_BYTES,
       "no callback after a callback has failed");
    bool enc = S.mode == CND_MODE_ENCODE;
    h_call* c = &CB[ncb < MAXCB ? ncb : MAXCB - 1];
    CK(T_CB | T_MEM, ncb < MAXCB, "bounded number of callbacks per instruction");
    if (ncb >= MAXCB) { H_ASSUME(0); return CND_ERR_OK; }
    ncb++;
    c->key = key; c->type = type; c->ptr = ptr; c->cursor = ctx->cursor;
    c->in = c->out = 0; c->in_buf = false;
    int n = cb_size(type);
    if (n) {
        CK(T_MEM, W_OK(ptr, n), "callback value pointer is valid for its type");
        CK(T_CB, !ptr || (uint8_t*)ptr < D || (uint8_t*)ptr >= D + DL || NATIVE == 0, "host value is not the wire buffer");
        c->in = load_n(ptr, n);
        c->out = c->in;
        bool writes = enc ? type != OP_STORE_CTX : (type == OP_CTX_QUERY || type == OP_LOAD_CTX);
        if (writes) { c->out = low_n(ND(), n); store_n(ptr, n, c->out); }
        if (type >= OP_ARR_FIXED && type <= OP_ARR_DYNAMIC) crec_count = c->out;
    } else if (is_str(type)) {
        if (enc) {
            CK(T_MEM, W_OK(ptr, sizeof(char*)), "string out-pointer is valid");
            *(const char**)ptr = HS_null ? NULL : HS;
        } else {
            int pre = type == OP_STR_NULL ? 0 : type == OP_STR_PRE_U8 ? 1 : type == OP_STR_PRE_U16 ? 2 : 4;
            const uint8_t* s = (const uint8_t*)ptr;
            CK(T_MEM, R_OK(s - pre, (size_t)pre + (pre ? 0 : 1)), "decoded string and its length prefix are readable");
            if (pre) {
                c->in = 0;
                for (int i = 0; i < 4; i++) if (i < pre) c->in |= (uint64_t)s[i - pre] << (8 * (ctx->endianness == CND_LE ? i : pre - 1 - i));
                CK(T_MEM, R_OK(s, c->in), "decoded string is readable over its whole length");
            }
#ifndef __CPROVER__
            volatile uint8_t sink = 0;
            if (pre) { for (uint64_t k = 0; k < c->in; k++) sink ^= s[k]; }
            else { for (const uint8_t* q = s; *q; q++) sink ^= *q; }
#endif
        }
    } else if (type == OP_RAW_BYTES) {
        size_t count = OPC != OP_RAW_BYTES ? (size_t)crec_count : BL - IP0 >= 7 ? opnd(3, 4) : 0; /* a truncated operand reads as 0 */
        CK(T_MEM, IN_BUF(ptr, count), "raw byte region lies inside the data buffer");
        c->out = count;
        if (enc) { /* the host fills the region */
#ifdef __CPROVER__
#ifdef BOUNDED_INPUTS
            for (size_t k = 0; k < DCAP; k++) if (k < count) ((uint8_t*)ptr)[k] = (uint8_t)ND();
#else
            __CPROVER_havoc_slice(ptr, count);
#endif
#else
            for (size_t k = 0; k < DCAP; k++) if (k < count) ((uint8_t*)ptr)[k] = (uint8_t)ND();
#endif
        }
    } else {
        CK(T_CB, type == OP_ENTER_STRUCT || type == OP_EXIT_STRUCT || type == OP_ARR_END, "callback type is a documented one");
        CK(T_CB, ptr == NULL, "structural callbacks carry no value");
    }
    c->err = (cnd_error_t)(ND() % 9);
    return c->err;
}

/* --- assumed contracts of libc, and of helpers verified on their own --- */
#ifdef __CPROVER__
_Bool nondet_bool(void); size_t nondet_size(void); double nondet_double(void);
#ifdef BOUNDED_INPUTS
void* h_memcpy_var(void* d, const void* s, size_t n) {
    CK(T_MEM, __CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "memcpy regions are valid");
    for (size_t k = 0; k < DCAP; k++) if (k < n) ((uint8_t*)d)[k] = ((const uint8_t*)s)[k];
    return d;
}
void* h_memchr(const void* s, int c, size_t n) {
    CK(T_MEM, __CPROVER_r_ok(s, n), "memchr region is valid");
    for (size_t k = 0; k < DCAP; k++) if (k < n && ((const uint8_t*)s)[k] == (uint8_t)c) return (uint8_t*)s + k;
    return NULL;
}
#else
void* h_memcpy_var(void* d, const void* s, size_t n) {
    CK(T_MEM, __CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "memcpy regions are valid");
    __CPROVER_havoc_slice(d, n);
    if (__CPROVER_same_object(d, D)) { /* instantiated at the ghost byte, if it is in the region */
        size_t off = (size_t)((uint8_t*)d - D);
        if (GI >= off && GI - off < n) H_ASSUME(((uint8_t*)d)[GI - off] == ((const uint8_t*)s)[GI - off]);
    }
    return d;
}
void* h_memchr(const void* s, int c, size_t n) {
    CK(T_MEM, __CPROVER_r_ok(s, n), "memchr region is valid");
    size_t k = nondet_size();
    H_ASSUME(k <= n);
    if (k < n) H_ASSUME(((const uint8_t*)s)[k] == (uint8_t)c);
    if (__CPROVER_same_object(s, D)) { /* nothing before k matches: instantiated at the ghost byte */
        size_t off = (size_t)((const uint8_t*)s - D);
        if (GI >= off && GI - off < k) H_ASSUME(D[GI] != (uint8_t)c);
    }
    return k < n ? (uint8_t*)s + k : NULL;
}
#endif
size_t h_strlen(const char* s) {
    CK(T_MEM, s == HS, "strlen of the host string");
    return HL;
}
static int mfn; static double ma, mb, mres;
double h_math1(int fn, double a) { mfn = fn; ma = a; mres = nondet_double(); return mres; }
double h_math2(int fn, double a, double b) { mfn = fn; ma = a; mb = b; mres = nondet_double(); return mres; }
#endif

/* Stand-ins for helpers under their own contract (goto-instrument --replace-calls) */
static bool crc_called, skip_called, math_called;
static const uint8_t* crc_data; static size_t crc_len; static uint32_t crc_poly, crc_init, crc_xor, crc_res; static uint8_t crc_flags; static int crc_width;
static size_t skip_from, skip_to;
static int math_kind; static double math_arg, math_res;
#ifdef __CPROVER__
uint32_t stub_calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
    CK(T_MEM, __CPROVER_r_ok(data, len), "CRC input region is valid");
    crc_called = true; crc_data = data; crc_len = len; crc_poly = poly; crc_init = init; crc_xor = xorout; crc_flags = flags; crc_width = width;
    crc_res = (uint32_t)nondet_u64();
    if (width == 16) crc_res &= 0xFFFF;
    return crc_res;
}
void stub_skip_loop_body(cnd_vm_ctx* ctx) {
    CK(T_MEM, ctx->ip <= BL, "array body starts inside the bytecode");
    skip_called = true; skip_from = ctx->ip;
    ctx->ip = nondet_size();
    H_ASSUME(ctx->ip >= skip_from && ctx->ip <= BL);
    skip_to = ctx->ip;
}
/* read_bits / write_bits: contracts proved in bits.c */
uint64_t stub_read_bits(cnd_vm_ctx* ctx, uint8_t count) {
    unsigned p = ctx->bit_offset + GB;
    CK(T_MEM | T_BITS, ctx == &C && count <= 64 && ((size_t)ctx->bit_offset + count + 7) / 8 <= DL - ctx->cursor, "precondition of read_bits: the bits lie inside the data");
    uint64_t v = nondet_u64();
    if (count < 64) H_ASSUME(v >> count == 0);
    if (GB < count) H_ASSUME(((ctx->endianness == CND_LE ? v >> GB : v >> (count - 1 - GB)) & 1) == (uint64_t)bit_at(D[ctx->cursor + p / 8], p % 8));
    p = ctx->bit_offset + count;
    ctx->cursor += p / 8; ctx->bit_offset = p % 8;
    return v;
}
void stub_write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
    unsigned p = ctx->bit_offset + GB, end = ctx->bit_offset + count;
    size_t c0 = ctx->cursor, n = ((size_t)end + 7) / 8;
    CK(T_MEM | T_BITS, ctx == &C && n <= DL - c0, "precondition of write_bits: the bits lie inside the data");
    uint8_t old = GI < DL ? D[GI] : 0;
    __CPROVER_havoc_slice(D + c0, n);
    if (GB < count) {
        unsigned k = ctx->endianness == CND_LE ? GB : count - 1 - GB;
        H_ASSUME((uint64_t)bit_at(D[c0 + p / 8], p % 8) == (k < 64 ? (val >> k) & 1 : 0));
    }
    if (GI < DL && GI >= c0 && GI - c0 < n)
        for (unsigned q = 0; q < 8; q++) {
            size_t at = (GI - c0) * 8 + q;
            if (at < ctx->bit_offset || at >= end) H_ASSUME(bit_at(D[GI], q) == bit_at(old, q));
        }
    ctx->cursor += end / 8; ctx->bit_offset = end % 8;
}
static double stub_math(cnd_vm_ctx* ctx, int kind, double x) {
    math_called = true; math_kind = kind; math_arg = x; math_res = nondet_double(); return math_res;
}
double stub_poly_eval(cnd_vm_ctx* ctx, double x) { return stub_math(ctx, 1, x); }
double stub_poly_solve(cnd_vm_ctx* ctx, double x) { return stub_math(ctx, 2, x); }
double stub_spline_eval(cnd_vm_ctx* ctx, double x) { return stub_math(ctx, 3, x); }
double stub_spline_solve(cnd_vm_ctx* ctx, double x) { return stub_math(ctx, 4, x); }
#endif

/* --- the representation invariant of the VM --- */
static bool inv(const cnd_vm_ctx* c) {
    if (c->cursor > c->data_len || c->bit_offset > 7) return false;
    if (c->cursor == c->data_len && c->bit_offset != 0) return false;
    if (c->loop_depth > CND_MAX_LOOP_DEPTH || c->expr_sp > CND_MAX_EXPR_STACK) return false;
    if (c->endianness != CND_LE && c->endianness != CND_BE) return false;
    if (c->trans_type < CND_TRANS_NONE || c->trans_type > CND_TRANS_SPLINE) return false;
    return true;
}
static bool inv_loops(const cnd_vm_ctx* c, size_t g) {
    return !(g < c->loop_depth && g < CND_MAX_LOOP_DEPTH) || c->loop_stack[g].start_ip <= BL;
}
static bool inv_trans(const cnd_vm_ctx* c) {
    if (c->trans_type == CND_TRANS_POLY)
        return c->trans_poly_data >= BC && (size_t)(c->trans_poly_data - BC) <= BL &&
               (size_t)c->trans_poly_count * 8 <= BL - (size_t)(c->trans_poly_data - BC);
    if (c->trans_type == CND_TRANS_SPLINE)
        return c->trans_spline_data >= BC && (size_t)(c->trans_spline_data - BC) <= BL &&
               (size_t)c->trans_spline_count * 16 <= BL - (size_t)(c->trans_spline_data - BC);
    return true;
}

static double bits_to_double(uint64_t v) { union { uint64_t u; double d; } x; x.u = v; return x.d; }
#include "vm_spec.h"

static void finish(void) {
#ifdef __CPROVER__
    __CPROVER_assume(0);
#else
    printf("PASSED\n");
    exit(0);
#endif
}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#endif

void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {
    CK(T_MEM, pc >= BC && (size_t)(pc - BC) < BL, "next instruction lies inside the bytecode");
    CK(T_MEM, inv(&C), "instruction preserves the VM invariant");
    CK(T_MEM, inv_loops(&C, GL), "instruction preserves the loop stack invariant");
    CK(T_MEM, inv_trans(&C), "instruction preserves the transform operand invariant");
    spec_post(false, CND_ERR_OK, (size_t)(pc - BC));
    finish();
}

static void setup(void) {
    h_steps = 0; ncb = 0;
    BL = (size_t)ND(); DL = (size_t)ND(); IP0 = (size_t)ND(); HL = (size_t)ND();
    H_ASSUME(BL >= 1 && IP0 < BL);
#ifdef BOUNDED_INPUTS
    H_ASSUME(BL <= BCAP && DL <= DCAP && HL <= HCAP);
#else
    H_ASSUME(BL <= ((size_t)1 << 40) && DL <= ((size_t)1 << 40) && HL <= ((size_t)1 << 40));
#endif
    BC = nd_alloc(BCAP, BL); D = nd_alloc(DCAP, DL); HS = (char*)nd_alloc(HCAP + 1, HL + 1);
    H_ASSUME(BC && D && HS);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < BL) BC[i] = v; }
    for (size_t i = 0; i < DCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < DL) D[i] = v; }
    for (size_t i = 0; i < HCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < HL) { H_ASSUME(v != 0); HS[i] = (char)v; } }
#endif
    HS[HL] = 0;
    HS_null = ND() & 1;
    H_ASSUME(!HS_null || HL == 0);
    P.bytecode = BC; P.bytecode_len = BL; P.string_table = NULL; P.string_count = 0;
    C.program = &P; C.data_buffer = D; C.data_len = DL; C.io_callback = h_callback; C.user_ptr = (void*)&S;
    /* case splits: -DMODE, -DTRANS, -DENDIAN, -DBITOFF enumerate all values over several jobs */
    C.mode = (ND() & 1) ? CND_MODE_DECODE : CND_MODE_ENCODE;
    C.ip = IP0;
    C.cursor = (size_t)ND(); C.bit_offset = (uint8_t)ND(); C.endianness = (ND() & 1) ? CND_BE : CND_LE;
    C.trans_type = (cnd_trans_t)(ND() & 7);
#ifdef MODE
    H_ASSUME(C.mode == (MODE)); C.mode = (MODE);
#endif
#ifdef ENDIAN
    H_ASSUME(C.endianness == (ENDIAN)); C.endianness = (ENDIAN);
#endif
#ifdef BITOFF
    H_ASSUME(C.bit_offset == (BITOFF)); C.bit_offset = (BITOFF);
#endif
#ifdef TRANS
    H_ASSUME(C.trans_type == (TRANS)); C.trans_type = (TRANS);
#endif
    C.trans_f_factor = bits_to_double(ND()); C.trans_f_offset = bits_to_double(ND()); C.trans_i_val = (int64_t)ND();
    C.trans_poly_count = (uint8_t)ND(); C.trans_spline_count = (uint8_t)ND();
    size_t po = (size_t)ND(), so = (size_t)ND();
    H_ASSUME(po <= BL && so <= BL);
    if (C.trans_type == CND_TRANS_POLY) H_ASSUME((size_t)C.trans_poly_count * 8 <= BL - po);
    if (C.trans_type == CND_TRANS_SPLINE) H_ASSUME((size_t)C.trans_spline_count * 16 <= BL - so);
    C.trans_poly_data = BC + po; C.trans_spline_data = BC + so;
    C.is_next_optional = ND() & 1;
    C.loop_depth = (uint8_t)ND(); C.expr_sp = (uint8_t)ND();
    for (int i = 0; i < CND_MAX_LOOP_DEPTH; i++) {
        C.loop_stack[i].start_ip = (size_t)ND(); C.loop_stack[i].remaining = (uint32_t)ND();
        H_ASSUME(C.loop_stack[i].start_ip <= BL);
    }
    for (int i = 0; i < CND_MAX_EXPR_STACK; i++) C.expr_stack[i] = ND();
    H_ASSUME(inv(&C));
    GI = (size_t)ND(); GE = (size_t)(ND() & 7); GL = (size_t)(ND() & 7);
    GOLD = GI < DL ? D[GI] : 0;
    GEV = C.expr_stack[GE]; GLV = C.loop_stack[GL];
    g_bc = BC; g_x = (size_t)(ND() & 0xFFFF); g_at = (size_t)-1;
    g_ata = 0;
    g_elems = OPC == OP_ENUM_CHECK ? IP0 + 4 : OPC == OP_SWITCH ? IP0 + 7 + opnd(3, 4) + 6 : 0;
    g_xv = g_atv = 0; g_xp = 0; g_ato = 0;
    S = C;
    /* old bytes around the cursor, for the decode postconditions */
    size_t cur = C.cursor + (spec_aligns() && C.bit_offset ? 1 : 0);
    if (COMPLETE && spec_reads_data()) for (int i = 0; i < 24; i++) { size_t at = cur + i - 8; PRE[i] = (cur + i >= 8 && at < DL) ? D[at] : 0; }
    spec_pre();
}

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#else
    (void)argc; (void)argv;
#endif
    setup();
    REACH("precondition is satisfiable");
    cnd_error_t rc = cnd_execute(&C);
    CK(T_MEM, h_steps == 1, "an instruction was executed");
    CK(T_MEM, rc >= CND_ERR_OK && rc <= CND_ERR_ARITHMETIC, "result is a documented error code");
    if (rc == CND_ERR_OK) {
        CK(T_MEM, inv(&C), "invariant holds when the program ends");
        CK(T_MEM, inv_loops(&C, GL), "loop stack invariant holds when the program ends");
    }
    spec_post(true, rc, BL);
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
