/* Postconditions of the VM instructions, written from the documented behaviour.
 * E starts as "nothing changes, execution continues behind the instruction";
 * each spec_* states how the instruction deviates from that. */

#define COMPLETE (TAGS & ~T_MEM)  /* semantic obligations assume a complete instruction */

#ifdef ITYPE
#define OPTYPE(at) ((uint8_t)(ITYPE)) /* a case of the split over operand types, assumed in spec_pre */
#else
#define OPTYPE(at) ((uint8_t)opnd((at), 1))
#endif
static int imm_size(uint8_t t) {
    if (t == OP_IO_U8 || t == OP_IO_I8) return 1;
    if (t == OP_IO_U16 || t == OP_IO_I16) return 2;
    if (t == OP_IO_U32 || t == OP_IO_I32 || t == OP_IO_F32) return 4;
    if (t == OP_IO_U64 || t == OP_IO_I64 || t == OP_IO_F64) return 8;
    return 0;
}
static int prim_size(void) { return OPC == OP_IO_BOOL ? 1 : imm_size(OPC); }

/* Opcodes that act on whole bytes: they start at the next byte boundary */
static bool spec_aligns(void) {
    return (OPC >= 0x10 && OPC <= 0x1F) || (OPC >= 0x30 && OPC <= 0x3F) || OPC == OP_CONST_CHECK || OPC == OP_CONST_WRITE ||
           OPC == OP_CRC_16 || OPC == OP_CRC_32 || OPC == OP_EMIT || (OPC >= 0x4B && OPC <= 0x4F);
}

/* Opcodes whose postcondition mentions the data at the cursor */
static bool spec_reads_data(void) {
    return (OPC >= 0x10 && OPC <= 0x3F) || (OPC >= 0x40 && OPC <= 0x42) || OPC == OP_CRC_16 || OPC == OP_CRC_32 || OPC == OP_ENUM_CHECK || OPC == OP_EMIT;
}

/* Length of the instruction at IP0 (0: unknown opcode or operand type), as documented */
static size_t ilen(size_t avail) {
    switch (OPC) {
        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT: case OP_ENTER_BIT_MODE:
        case OP_EXIT_BIT_MODE: case OP_ARR_END: case OP_MARK_OPTIONAL: case OP_POP: case OP_SWAP: case OP_DUP:
        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
        case OP_ITOF: case OP_FTOI: case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT: return 1;
        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL: case OP_EMIT: return 2;
        case OP_ENTER_STRUCT: case OP_META_NAME: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16:
        case OP_ARR_PRE_U32: case OP_ARR_EOF: case OP_LOAD_CTX: case OP_STORE_CTX: return 3;
        case OP_IO_BIT_U: case OP_IO_BIT_I: return 4;
        case OP_STR_NULL: case OP_ARR_DYNAMIC: case OP_JUMP: case OP_JUMP_IF_NOT: return 5;
        case OP_ARR_FIXED: case OP_RAW_BYTES: case OP_SWITCH: case OP_SWITCH_TABLE: return 7;
        case OP_CRC_16: return 8;
        case OP_PUSH_IMM: case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: return 9;
        case OP_CRC_32: return 14;
        case OP_SCALE_LIN: return 17;
        case OP_TRANS_POLY: return avail < 2 ? 2 : 2 + (size_t)opnd(1, 1) * 8;
        case OP_TRANS_SPLINE: return avail < 2 ? 2 : 2 + (size_t)opnd(1, 1) * 16;
        case OP_CONST_WRITE: if (avail < 2) return 2;
            return opnd(1, 1) >= OP_IO_U8 && opnd(1, 1) <= OP_IO_U64 ? 2 + (size_t)imm_size((uint8_t)opnd(1, 1)) : 0;
        case OP_CONST_CHECK: if (avail < 4) return 4;
            return opnd(3, 1) >= OP_IO_U8 && opnd(3, 1) <= OP_IO_I64 ? 4 + (size_t)imm_size((uint8_t)opnd(3, 1)) : 0;
        case OP_RANGE_CHECK: if (avail < 2) return 2;
            return imm_size((uint8_t)opnd(1, 1)) ? 2 + 2 * (size_t)imm_size((uint8_t)opnd(1, 1)) : 0;
        case OP_ENUM_CHECK: if (avail < 4) return 4;
            return opnd(1, 1) >= OP_IO_U8 && opnd(1, 1) <= OP_IO_I64 ? 4 + (size_t)opnd(2, 2) * imm_size((uint8_t)opnd(1, 1)) : 0;
        default: break;
    }
    return (OPC >= OP_IO_U8 && OPC <= OP_IO_F64) ? 3 : 0;
}

static struct {
    cnd_error_t rc;
    int ncb;
    size_t np, cursor;
    uint8_t bo;
    size_t lo, hi;                       /* data bytes that may change */
    bool any_cursor, any_np;             /* stated separately */
    uint8_t sp; int slot; uint64_t slotv; /* expression stack */
    int slot2; uint64_t slotv2;
    uint8_t depth; int fslot; cnd_loop_frame fr;
    cnd_trans_t trans; bool opt; cnd_endian_t endian;
    double ff, fo; int64_t ti; const uint8_t *pd, *sd; uint8_t pc, sc; bool any_params;
} E;
static size_t cur; /* data cursor after alignment */

static bool same_double(uint64_t a, uint64_t b) {
    return a == b || ((a & 0x7FFFFFFFFFFFFFFFull) > 0x7FF0000000000000ull && (b & 0x7FFFFFFFFFFFFFFFull) > 0x7FF0000000000000ull);
}
static uint64_t dbits(double d) { union { uint64_t u; double d; } x; x.d = d; return x.u; }
static uint32_t fbits(float d) { union { uint32_t u; float d; } x; x.d = d; return x.u; }
static float bits_to_float(uint32_t v) { union { uint32_t u; float d; } x; x.u = v; return x.d; }

static uint64_t compose(const uint8_t* b, int n, cnd_endian_t e) {
    uint64_t v = 0;
    for (int i = 0; i < 8; i++) if (i < n) v |= (uint64_t)b[i] << (8 * (e == CND_LE ? i : n - 1 - i));
    return v;
}
static int64_t sx(uint64_t v, int n) { return n == 1 ? (int8_t)v : n == 2 ? (int16_t)v : n == 4 ? (int32_t)v : (int64_t)v; }
/* the n bytes of the data buffer at pos hold v in the current byte order */
static bool stored(size_t pos, int n, uint64_t v) {
    uint8_t b[8] = {0};
    for (int i = 0; i < 8; i++) if (i < n) b[i] = D[pos + i];
    return compose(b, n, S.endianness) == low_n(v, n);
}
#define OLD(n) compose(PRE + 8, (n), S.endianness)        /* value at the cursor before the instruction */
#define OLD_BEFORE(n) compose(PRE + 8 - (n), (n), S.endianness) /* value just before the cursor */

static void reset_expected(void) {
    cur = S.cursor + (spec_aligns() && S.bit_offset ? 1 : 0);
    E.rc = CND_ERR_OK; E.ncb = 0; E.np = IP0 + ilen(BL - IP0); E.cursor = cur; E.bo = spec_aligns() ? 0 : S.bit_offset;
    E.lo = E.hi = 0; E.any_cursor = E.any_np = false;
    E.sp = S.expr_sp; E.slot = E.slot2 = -1; E.depth = S.loop_depth; E.fslot = -1;
    E.trans = S.trans_type; E.opt = S.is_next_optional; E.endian = S.endianness;
    E.ff = S.trans_f_factor; E.fo = S.trans_f_offset; E.ti = S.trans_i_val;
    E.pd = S.trans_poly_data; E.sd = S.trans_spline_data; E.pc = S.trans_poly_count; E.sc = S.trans_spline_count; E.any_params = false;
}

/* frame: everything the instruction's contract does not mention is unchanged */
static void conclude(unsigned tag, bool returned, cnd_error_t rc, size_t np) {
    cnd_error_t got = returned ? rc : CND_ERR_OK;
    CK(tag, got == E.rc, "instruction outcome is the specified one");
    CK(tag | T_CB, (got == CND_ERR_CALLBACK) == (E.rc == CND_ERR_CALLBACK), "the run ends with the callback error exactly if a host call failed");
    CK(tag | T_CB, ncb == E.ncb, "the host is called exactly as often as specified");
    CK(tag | T_FRAME, S.mode == CND_MODE_ENCODE || OPC == OP_CONST_WRITE || GI >= DL || D[GI] == GOLD, "decoding never modifies the data");
    CK(tag | T_FRAME, GI >= DL || (GI >= E.lo && GI < E.hi) || D[GI] == GOLD, "no data byte outside the field is modified");
    CK(tag | T_FRAME, C.mode == S.mode && C.program == S.program && C.data_buffer == S.data_buffer && C.data_len == S.data_len &&
       C.io_callback == S.io_callback && C.user_ptr == S.user_ptr && P.bytecode == BC && P.bytecode_len == BL, "configuration is never modified");
    if (E.rc != CND_ERR_OK || got != CND_ERR_OK) return;
    if (!E.any_np) CK(tag, np == E.np, "execution continues at the specified instruction");
    if (!E.any_cursor) {
        CK(tag, C.cursor == E.cursor, "data cursor advances by exactly the field");
        CK(tag, C.bit_offset == E.bo, "bit position is the specified one");
    }
    CK(tag | T_FRAME, C.expr_sp == E.sp, "expression stack depth is the specified one");
    if (GE < E.sp) CK(tag | T_FRAME, C.expr_stack[GE] == ((int)GE == E.slot ? E.slotv : (int)GE == E.slot2 ? E.slotv2 : GEV),
                      "expression stack contents are the specified ones");
    CK(tag | T_FRAME, C.loop_depth == E.depth, "array nesting depth is the specified one");
    if (GL < E.depth) {
        cnd_loop_frame f = (int)GL == E.fslot ? E.fr : GLV;
        CK(tag | T_FRAME, C.loop_stack[GL].start_ip == f.start_ip && C.loop_stack[GL].remaining == f.remaining,
           "array frames are the specified ones");
    }
    CK(tag | T_MOD, C.endianness == E.endian, "byte order is the specified one");
    CK(tag | T_MOD, C.trans_type == E.trans, "pending transform is the specified one");
    CK(tag | T_MOD, C.is_next_optional == E.opt, "pending optional marker is the specified one");
    if (E.trans == CND_TRANS_SCALE_F64)
        CK(tag | T_MOD, same_double(dbits(C.trans_f_factor), dbits(E.ff)) && same_double(dbits(C.trans_f_offset), dbits(E.fo)), "scale parameters");
    if (E.trans >= CND_TRANS_ADD_I64 && E.trans <= CND_TRANS_DIV_I64) CK(tag | T_MOD, C.trans_i_val == E.ti, "integer transform operand");
    if (E.trans == CND_TRANS_POLY) CK(tag | T_MOD, C.trans_poly_data == E.pd && C.trans_poly_count == E.pc, "polynomial coefficients");
    if (E.trans == CND_TRANS_SPLINE) CK(tag | T_MOD, C.trans_spline_data == E.sd && C.trans_spline_count == E.sc, "spline points");
}

/* one host call with the given key and type; on failure the instruction fails with CALLBACK */
static bool call_is(unsigned tag, int i, uint16_t key, uint8_t type) {
    E.ncb = i + 1;
    CK(tag | T_CB, ncb > i, "the host is called");
    if (ncb <= i) return false;
    CK(tag | T_CB, CB[i].key == key && CB[i].type == type, "the host is called with the field's key and type");
    if (CB[i].err != CND_ERR_OK) { E.rc = CND_ERR_CALLBACK; return false; }
    return true;
}

static bool fits(size_t n) { return cur <= DL && n <= DL - cur; }

/* --- primitives --- */
static bool fits_int(double v, int n, bool sgn) {
    double two_n = n == 1 ? 256.0 : n == 2 ? 65536.0 : n == 4 ? 4294967296.0 : 18446744073709551616.0;
    if (sgn) return v < two_n / 2 && (n == 8 ? v >= -two_n / 2 : v > -two_n / 2 - 1.0);
    return v < two_n && v > -1.0;
}
static uint64_t trunc_to(double v, int n, bool sgn) {
    if (n == 1) return sgn ? (uint64_t)(int64_t)(int8_t)v : (uint8_t)v;
    if (n == 2) return sgn ? (uint64_t)(int64_t)(int16_t)v : (uint16_t)v;
    if (n == 4) return sgn ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
    return sgn ? (uint64_t)(int64_t)v : (uint64_t)v;
}
static double to_double(uint64_t raw, int n, bool sgn) {
    if (n == 1) return sgn ? (double)(int8_t)raw : (double)(uint8_t)raw;
    if (n == 2) return sgn ? (double)(int16_t)raw : (double)(uint16_t)raw;
    if (n == 4) return sgn ? (double)(int32_t)raw : (double)(uint32_t)raw;
    return sgn ? (double)(int64_t)raw : (double)(uint64_t)raw;
}
static uint64_t wrap_div(uint64_t a, uint64_t b) {
    if (b == 0) return a;
    if (b == (uint64_t)-1) return 0 - a;
    return (uint64_t)((int64_t)a / (int64_t)b);
}
static uint64_t to_eng(uint64_t raw) {
    uint64_t k = (uint64_t)S.trans_i_val;
    if (S.trans_type == CND_TRANS_ADD_I64) return raw + k;
    if (S.trans_type == CND_TRANS_SUB_I64) return raw - k;
    if (S.trans_type == CND_TRANS_MUL_I64) return raw * k;
    return wrap_div(raw, k);
}
static uint64_t to_raw(uint64_t eng) {
    uint64_t k = (uint64_t)S.trans_i_val;
    if (S.trans_type == CND_TRANS_ADD_I64) return eng - k;
    if (S.trans_type == CND_TRANS_SUB_I64) return eng + k;
    if (S.trans_type == CND_TRANS_MUL_I64) return wrap_div(eng, k);
    return eng * k;
}
static bool same_float(uint32_t a, uint32_t b) {
    return a == b || ((a & 0x7FFFFFFF) > 0x7F800000 && (b & 0x7FFFFFFF) > 0x7F800000);
}
static uint64_t old_raw; /* composed once, so that the solver sees one value */

#if defined(__CPROVER__) && !defined(BOUNDED_INPUTS)
#define MATH_CONTRACT 1
#else
#define MATH_CONTRACT 0
#endif

#if !MATH_CONTRACT
/* reference polynomial and spline arithmetic (see math.c for the contracts of the real functions) */
static double ref_num(const uint8_t* p, int i) { uint64_t v = 0; for (int k = 7; k >= 0; k--) v = v << 8 | p[8 * i + k]; return bits_to_double(v); }
static double ref_poly_eval(double x, double* dy) {
    double y = 0, d = 0;
    for (int i = S.trans_poly_count - 1; i >= 0; i--) {
        if (i == S.trans_poly_count - 1) { y = ref_num(S.trans_poly_data, i); continue; }
        d = d * x + y;
        y = y * x + ref_num(S.trans_poly_data, i);
    }
    if (dy) *dy = d;
    return y;
}
static double ref_poly_solve(double target) {
    double x = 0;
    for (int it = 0; it < 20; it++) {
        double dy, diff = ref_poly_eval(x, &dy) - target;
        if ((diff > -0.001 && diff < 0.001) || dy == 0) break;
        x = x - diff / dy;
    }
    return x;
}
static double ref_spline_eval(double x) {
    const uint8_t* p = S.trans_spline_data;
    for (int i = 0; i + 1 < S.trans_spline_count; i++) {
        double x0 = ref_num(p, 2 * i), y0 = ref_num(p, 2 * i + 1), x1 = ref_num(p, 2 * i + 2), y1 = ref_num(p, 2 * i + 3);
        if ((x >= x0 && x <= x1) || i + 2 == S.trans_spline_count) return x1 == x0 ? y0 : y0 + (x - x0) * (y1 - y0) / (x1 - x0);
    }
    return 0;
}
static double ref_spline_solve(double y) {
    const uint8_t* p = S.trans_spline_data;
    for (int i = 0; i + 1 < S.trans_spline_count; i++) {
        double x0 = ref_num(p, 2 * i), y0 = ref_num(p, 2 * i + 1), x1 = ref_num(p, 2 * i + 2), y1 = ref_num(p, 2 * i + 3);
        if ((y >= y0 && y <= y1) || (y <= y0 && y >= y1)) return y1 == y0 ? x0 : x0 + (y - y0) * (x1 - x0) / (y1 - y0);
    }
    return 0;
}
#endif

static void spec_prim(bool returned, cnd_error_t rc, size_t np) {
    const int n = prim_size();
    const bool isf = OPC == OP_IO_F32 || OPC == OP_IO_F64, sgn = OPC >= OP_IO_I8 && OPC <= OP_IO_I64;
    const uint16_t key = (uint16_t)opnd(1, 2);
    const bool enc = S.mode == CND_MODE_ENCODE;
    const unsigned T = T_PRIM | T_OPT | T_TRANS | T_MOD;
    E.trans = CND_TRANS_NONE; E.opt = false;
    if (!fits(n)) {
        if (!S.is_next_optional) { E.rc = CND_ERR_OOB; }
        else if (call_is(T, 0, key, OPC)) CK(T_OPT | T_CB, CB[0].in == 0, "a missing optional field is delivered as zero");
    } else if (S.trans_type == CND_TRANS_NONE) {
        E.cursor = cur + n;
        uint64_t old = OLD(n);
        if (!enc && OPC == OP_IO_BOOL && old > 1) E.rc = CND_ERR_VALIDATION;
        else if (call_is(T, 0, key, OPC)) {
            if (enc) {
                if (OPC == OP_IO_BOOL && CB[0].out > 1) E.rc = CND_ERR_VALIDATION;
                else { E.lo = cur; E.hi = cur + n; CK(T_PRIM, GI < cur || GI - cur >= n || returned && rc || stored(cur, n, CB[0].out), "encoded bytes are the value in the current byte order"); }
            } else CK(T_PRIM, CB[0].in == old, "decoded value is the bytes in the current byte order");
        }
    } else {
        bool dbl = S.trans_type == CND_TRANS_SCALE_F64 || S.trans_type == CND_TRANS_POLY || S.trans_type == CND_TRANS_SPLINE;
        E.cursor = cur + n;
        uint64_t old = OLD(n);
        if (!dbl && !enc && isf) {
            double d = n == 4 ? (double)bits_to_float((uint32_t)old) : bits_to_double(old);
            if (!fits_int(d, 8, true)) { E.rc = CND_ERR_ARITHMETIC; conclude(T, returned, rc, np); return; }
        }
        if (call_is(T, 0, key, dbl ? OP_IO_F64 : OP_IO_I64)) {
            if (enc) {
                uint64_t raw = 0; bool ok = true, rawf = isf; double x = bits_to_double(CB[0].out);
                if (dbl) {
                    double r;
                    if (S.trans_type == CND_TRANS_SCALE_F64) r = (x - S.trans_f_offset) / S.trans_f_factor;
#if MATH_CONTRACT
                    else {
                        r = math_res;
                        CK(T_TRANS, math_called && math_kind == (S.trans_type == CND_TRANS_POLY ? 2 : 4) && same_double(dbits(math_arg), dbits(x)), "the inverse polynomial/spline is applied to the host value");
                    }
#else
                    else r = S.trans_type == CND_TRANS_POLY ? ref_poly_solve(x) : ref_spline_solve(x);
#endif
                    if (isf) raw = n == 4 ? fbits((float)r) : dbits(r);
                    else { ok = fits_int(r, n, sgn); raw = ok ? trunc_to(r, n, sgn) : 0; }
                } else {
                    raw = to_raw(CB[0].out);
                    if (isf) raw = n == 4 ? fbits((float)(int64_t)raw) : dbits((double)(int64_t)raw);
                }
                if (!ok) E.rc = CND_ERR_ARITHMETIC;
                else {
                    E.lo = cur; E.hi = cur + n;
                    uint8_t b[8];
                    for (int i = 0; i < 8; i++) if (i < n) b[i] = D[cur + i];
                    uint64_t got = compose(b, n, S.endianness);
                    CK(T_TRANS, returned && rc || (rawf ? (n == 4 ? same_float((uint32_t)got, (uint32_t)raw) : same_double(got, raw)) : got == low_n(raw, n)),
                       "encoded raw value is the inverse transform of the host value");
                }
            } else {
                if (dbl) {
                    double raw = isf ? (n == 4 ? (double)bits_to_float((uint32_t)old) : bits_to_double(old)) : to_double(old, n, sgn);
                    double e;
                    if (S.trans_type == CND_TRANS_SCALE_F64) e = raw * S.trans_f_factor + S.trans_f_offset;
#if MATH_CONTRACT
                    else {
                        e = math_res;
                        CK(T_TRANS, math_called && math_kind == (S.trans_type == CND_TRANS_POLY ? 1 : 3) && same_double(dbits(math_arg), dbits(raw)), "the polynomial/spline is applied to the raw value");
                    }
#else
                    else e = S.trans_type == CND_TRANS_POLY ? ref_poly_eval(raw, NULL) : ref_spline_eval(raw);
#endif
                    CK(T_TRANS, same_double(CB[0].in, dbits(e)), "decoded value is the transform of the raw value");
                } else {
                    uint64_t raw;
                    if (isf) raw = (uint64_t)(int64_t)(n == 4 ? (double)bits_to_float((uint32_t)old) : bits_to_double(old));
                    else raw = sgn ? (uint64_t)sx(old, n) : old;
                    CK(T_TRANS, CB[0].in == to_eng(raw), "decoded value is the integer transform of the raw value");
                }
            }
        }
    }
    conclude(T, returned, rc, np);
}

/* --- meta / state --- */
static void spec_meta(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_META | T_MOD;
    switch (OPC) {
        case OP_SET_ENDIAN_LE: E.endian = CND_LE; break;
        case OP_SET_ENDIAN_BE: E.endian = CND_BE; break;
        case OP_ENTER_STRUCT: call_is(T, 0, (uint16_t)opnd(1, 2), OPC); break;
        case OP_EXIT_STRUCT: call_is(T, 0, 0, OPC); break;
        case OP_MARK_OPTIONAL: E.opt = true; break;
        case OP_SCALE_LIN: E.trans = CND_TRANS_SCALE_F64; E.ff = bits_to_double(opnd64(1)); E.fo = bits_to_double(opnd64(9)); break;
        case OP_TRANS_ADD: E.trans = CND_TRANS_ADD_I64; E.ti = (int64_t)opnd64(1); break;
        case OP_TRANS_SUB: E.trans = CND_TRANS_SUB_I64; E.ti = (int64_t)opnd64(1); break;
        case OP_TRANS_MUL: E.trans = CND_TRANS_MUL_I64; E.ti = (int64_t)opnd64(1); break;
        case OP_TRANS_DIV: E.trans = CND_TRANS_DIV_I64; E.ti = (int64_t)opnd64(1); break;
        case OP_TRANS_POLY: E.trans = CND_TRANS_POLY; E.pc = (uint8_t)opnd(1, 1); E.pd = BC + IP0 + 2; break;
        case OP_TRANS_SPLINE: E.trans = CND_TRANS_SPLINE; E.sc = (uint8_t)opnd(1, 1); E.sd = BC + IP0 + 2; break;
        case OP_NOOP: case OP_META_VERSION: case OP_META_NAME: break;
        default: E.np = IP0 + 1; break; /* unknown opcodes are ignored */
    }
    conclude(T, returned, rc, np);
}

/* --- bitfields --- */
static bool bits_fit(unsigned n) { return ((size_t)S.bit_offset + n + 7) / 8 <= DL - S.cursor; }

static void advance_bits(unsigned n) {
    E.cursor = S.cursor + (S.bit_offset + n) / 8;
    E.bo = (uint8_t)((S.bit_offset + n) % 8);
    if (S.mode == CND_MODE_ENCODE) { E.lo = S.cursor; E.hi = S.cursor + (S.bit_offset + n + 7) / 8; }
}
/* after encoding n bits of v: ghost bit GB of the field is stored, bits around it are kept */
static void check_stored_bits(uint64_t v, unsigned n) {
    if (GB < n) {
        unsigned p = S.bit_offset + GB;
        int want = (int)((S.endianness == CND_LE ? (GB < 64 ? v >> GB : 0) : (n - 1 - GB < 64 ? v >> (n - 1 - GB) : 0)) & 1);
        CK(T_BITS, bit_at(D[S.cursor + p / 8], p % 8) == want, "every bit of the value is stored at its position");
    }
    if (GI < DL && GI >= S.cursor && GI < E.hi)
        for (unsigned q = 0; q < 8; q++) {
            size_t p = (GI - S.cursor) * 8 + q;
            if (p < S.bit_offset || p >= (size_t)S.bit_offset + n) CK(T_BITS, bit_at(D[GI], q) == bit_at(GOLD, q), "bits outside the field are kept");
        }
}
static void check_loaded_bits(uint64_t v, unsigned n, bool sgn) {
    unsigned p = S.bit_offset + GB;
    if (GB < n) {
        int got = (int)((S.endianness == CND_LE ? v >> GB : v >> (n - 1 - GB)) & 1);
        CK(T_BITS, bit_at(PRE[8 + p / 8], p % 8) == got, "every decoded bit is the stored one");
    }
    if (n < 64) {
        uint64_t high = v >> n;
        bool neg = sgn && n > 0 && ((v >> (n - 1)) & 1);
        CK(T_BITS, high == (neg ? ((uint64_t)-1) >> n : 0), "the value is zero- or sign-extended");
    }
}
static void spec_bits(bool returned, cnd_error_t rc, size_t np) {
    const bool enc = S.mode == CND_MODE_ENCODE;
    const unsigned T = T_BITS | T_MOD;
    unsigned n = OPC == OP_IO_BIT_BOOL ? 1 : opnd(3, 1);
    const uint16_t key = (uint16_t)opnd(1, 2);
    if (OPC == OP_IO_BIT_U || OPC == OP_IO_BIT_I || OPC == OP_IO_BIT_BOOL) {
        E.opt = false;
        if (n > 64) E.rc = CND_ERR_INVALID_OP;
        else if (!bits_fit(n)) {
            if (!S.is_next_optional) E.rc = CND_ERR_OOB;
            else if (call_is(T | T_OPT, 0, key, OPC)) CK(T | T_OPT, CB[0].in == 0, "a missing optional bitfield is delivered as zero");
        } else if (call_is(T, 0, key, OPC)) {
            advance_bits(n);
            if (enc) {
                if (OPC == OP_IO_BIT_BOOL && CB[0].out > 1) { E.rc = CND_ERR_VALIDATION; E.lo = E.hi = 0; }
                else if (!(returned && rc)) check_stored_bits(CB[0].out, n);
            } else check_loaded_bits(CB[0].in, n, OPC == OP_IO_BIT_I);
        }
    } else if (OPC == OP_ALIGN_PAD) {
        n = opnd(1, 1);
        if (!bits_fit(n)) E.rc = CND_ERR_OOB;
        else { advance_bits(n); if (enc && !(returned && rc)) check_stored_bits(0, n); }
    } else if (OPC == OP_ALIGN_FILL) {
        if (S.bit_offset) {
            n = 8 - S.bit_offset;
            advance_bits(n);
            if (enc && !(returned && rc)) check_stored_bits(opnd(1, 1) ? (uint64_t)-1 : 0, n);
        }
    } else if (OPC == OP_EXIT_BIT_MODE) {
        if (S.bit_offset) E.rc = CND_ERR_VALIDATION;
    }
    conclude(T | T_OPT, returned, rc, np);
}

/* --- validation --- */
static uint64_t enum_elem(int n, size_t at) { return n == 8 ? opnd64(at) : opnd(at, n); }
static void spec_valid(bool returned, cnd_error_t rc, size_t np) {
    const bool enc = S.mode == CND_MODE_ENCODE;
    const unsigned T = T_VALID;
    if (OPC == OP_CONST_WRITE || OPC == OP_CONST_CHECK) {
        size_t at = OPC == OP_CONST_WRITE ? 1 : 3;
        uint8_t type = OPTYPE(at);
        int n = imm_size(type);
        uint64_t k = n == 8 ? opnd64(at + 1) : opnd(at + 1, n);
        if (!fits(n)) E.rc = CND_ERR_OOB;
        else {
            E.cursor = cur + n;
            bool writes = OPC == OP_CONST_WRITE || enc;
            if (writes) { E.lo = cur; E.hi = cur + n; CK(T, returned && rc || stored(cur, n, k), "the constant is written"); }
            else if (OLD(n) != k) E.rc = CND_ERR_VALIDATION;
            else if (call_is(T, 0, (uint16_t)opnd(1, 2), type)) CK(T, CB[0].in == k, "the host is told the constant");
        }
    } else if (OPC == OP_RANGE_CHECK) {
        uint8_t type = OPTYPE(1);
        int n = imm_size(type);
        uint64_t lo = n == 8 ? opnd64(2) : opnd(2, n), hi = n == 8 ? opnd64(2 + 8) : opnd(2 + n, n);
        if (cur < (size_t)n) E.rc = CND_ERR_OOB;
        else {
            uint64_t v = OLD_BEFORE(n);
            bool in;
            if (type == OP_IO_F32) in = bits_to_float((uint32_t)v) >= bits_to_float((uint32_t)lo) && bits_to_float((uint32_t)v) <= bits_to_float((uint32_t)hi);
            else if (type == OP_IO_F64) in = bits_to_double(v) >= bits_to_double(lo) && bits_to_double(v) <= bits_to_double(hi);
            else if (type >= OP_IO_I8) in = sx(v, n) >= sx(lo, n) && sx(v, n) <= sx(hi, n);
            else in = v >= lo && v <= hi;
            if (!in) E.rc = CND_ERR_VALIDATION;
        }
    } else { /* ENUM_CHECK */
        uint8_t type = OPTYPE(1);
        int n = imm_size(type);
        unsigned count = opnd(2, 2);
        if (cur < (size_t)n) E.rc = CND_ERR_OOB;
        else {
            uint64_t v = OLD_BEFORE(n);
            bool member = false;
#if defined(LOOP_enum_check) && MATH_CONTRACT
            /* accepted: the element looked at last is the value; rejected: no element is (g_x is arbitrary) */
            bool accepted = !(returned && rc == CND_ERR_VALIDATION);
            if (accepted) member = g_at < count && g_ata == g_elems + g_at * n && g_atv == v;
            else CK(T, g_x >= count || (g_xp == g_elems + g_x * n && g_xv != v), "a value is rejected only if it equals no listed value");
#else
            for (unsigned i = 0; i < ENUM_MAX; i++)
                if (i < count && enum_elem(n, 4 + (size_t)i * n) == v) member = true;
#endif
            if (!member) E.rc = CND_ERR_VALIDATION;
        }
    }
    conclude(T, returned, rc, np);
}

/* --- checksums --- */
static uint32_t ref_crc(size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int w) {
    /* Rocksoft model, bit by bit */
    uint32_t r = init, top = (uint32_t)1 << (w - 1), mask = w == 32 ? 0xFFFFFFFFu : 0xFFFFu;
    for (size_t i = 0; i < len; i++)
        for (int b = 0; b < 8; b++) {
            int in = (D[i] >> ((flags & 1) ? b : 7 - b)) & 1;
            bool fb = ((r & top) != 0) != (in != 0);
            r = (r << 1) & mask;
            if (fb) r ^= poly & mask;
        }
    if (flags & 2) { uint32_t t = 0; for (int b = 0; b < w; b++) if (r & ((uint32_t)1 << b)) t |= (uint32_t)1 << (w - 1 - b); r = t; }
    return (r ^ xorout) & mask;
}
static void spec_crc(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_CRC;
    const int w = OPC == OP_CRC_16 ? 16 : 32, n = w / 8;
    uint32_t poly = opnd(1, n), init = opnd(1 + n, n), xorout = opnd(1 + 2 * n, n); uint8_t flags = (uint8_t)opnd(1 + 3 * n, 1);
    if (!fits(n)) E.rc = CND_ERR_OOB;
    else {
        uint32_t want;
#if MATH_CONTRACT
        CK(T, crc_called && crc_data == D && crc_len == cur && crc_poly == poly && crc_init == init && crc_xor == xorout && crc_flags == flags && crc_width == w,
           "the checksum covers exactly the preceding bytes with the given parameters");
        want = crc_res;
#else
        want = ref_crc(cur, poly, init, xorout, flags, w);
#endif
        E.cursor = cur + n;
        if (S.mode == CND_MODE_ENCODE) { E.lo = cur; E.hi = cur + n; CK(T, returned && rc || stored(cur, n, want), "the checksum is stored"); }
        else if (OLD(n) != want) E.rc = CND_ERR_CRC_MISMATCH;
    }
    conclude(T, returned, rc, np);
}

/* --- expression stack --- */
#define TOP(i) S.expr_stack[S.expr_sp - 1 - (i)]
static void pushes(int pops, uint64_t v) { E.sp = (uint8_t)(S.expr_sp - pops + 1); E.slot = S.expr_sp - pops; E.slotv = v; }
static void spec_alu(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_ALU;
    int pops = 2, push = 1;
    switch (OPC) {
        case OP_LOAD_CTX: case OP_PUSH_IMM: pops = 0; break;
        case OP_STORE_CTX: case OP_POP: pops = 1; push = 0; break;
        case OP_DUP: pops = 1; push = 2; break;
        case OP_SWAP: push = 2; break;
        case OP_NEG: case OP_FNEG: case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_LOG: case OP_ABS:
        case OP_ITOF: case OP_FTOI: case OP_BIT_NOT: case OP_LOG_NOT: pops = 1; break;
    }
    if (OPC == OP_LOAD_CTX && !call_is(T, 0, (uint16_t)opnd(1, 2), OPC)) { conclude(T, returned, rc, np); return; }
    if (S.expr_sp < pops) { E.rc = CND_ERR_STACK_UNDERFLOW; conclude(T, returned, rc, np); return; }
    if (S.expr_sp - pops + push > CND_MAX_EXPR_STACK) { E.rc = CND_ERR_STACK_OVERFLOW; conclude(T, returned, rc, np); return; }
    uint64_t b = pops ? TOP(0) : 0, a = pops == 2 ? TOP(1) : b, r = 0;
    double fa = bits_to_double(a), fb = bits_to_double(b);
    bool isd = false, math = false;
    switch (OPC) {
        case OP_LOAD_CTX: r = CB[0].out; break;
        case OP_PUSH_IMM: r = opnd64(1); break;
        case OP_STORE_CTX:
            E.sp = S.expr_sp - 1;
            if (call_is(T, 0, (uint16_t)opnd(1, 2), OPC)) CK(T, CB[0].in == b, "the host is given the popped value");
            conclude(T, returned, rc, np); return;
        case OP_POP: E.sp = S.expr_sp - 1; conclude(T, returned, rc, np); return;
        case OP_DUP: E.sp = S.expr_sp + 1; E.slot = S.expr_sp; E.slotv = b; conclude(T, returned, rc, np); return;
        case OP_SWAP: E.slot = S.expr_sp - 1; E.slotv = a; E.slot2 = S.expr_sp - 2; E.slotv2 = b; conclude(T, returned, rc, np); return;
        case OP_ADD: r = a + b; break;
        case OP_SUB: r = a - b; break;
        case OP_MUL: r = a * b; break;
        case OP_DIV: if (!b) E.rc = CND_ERR_ARITHMETIC; else r = a / b; break;
        case OP_MOD: if (!b) E.rc = CND_ERR_ARITHMETIC; else r = a % b; break;
        case OP_NEG: r = ~a + 1; break;
        case OP_BIT_AND: r = a & b; break;
        case OP_BIT_OR: r = a | b; break;
        case OP_BIT_XOR: r = a ^ b; break;
        case OP_BIT_NOT: r = ~a; break;
        case OP_SHL: r = b > 63 ? 0 : a << b; break;
        case OP_SHR: r = b > 63 ? 0 : a >> b; break;
        case OP_EQ: r = a == b; break;
        case OP_NEQ: r = a != b; break;
        case OP_GT: r = a > b; break;
        case OP_LT: r = a < b; break;
        case OP_GTE: r = a >= b; break;
        case OP_LTE: r = a <= b; break;
        case OP_LOG_AND: r = a && b; break;
        case OP_LOG_OR: r = a || b; break;
        case OP_LOG_NOT: r = !a; break;
        case OP_EQ_F: r = fa == fb; break;
        case OP_NEQ_F: r = fa != fb; break;
        case OP_GT_F: r = fa > fb; break;
        case OP_LT_F: r = fa < fb; break;
        case OP_GTE_F: r = fa >= fb; break;
        case OP_LTE_F: r = fa <= fb; break;
        case OP_FADD: r = dbits(fa + fb); isd = true; break;
        case OP_FSUB: r = dbits(fa - fb); isd = true; break;
        case OP_FMUL: r = dbits(fa * fb); isd = true; break;
        case OP_FDIV: if (fb == 0) E.rc = CND_ERR_ARITHMETIC; else r = dbits(fa / fb); isd = true; break;
        case OP_FNEG: r = dbits(-fa); isd = true; break;
        case OP_ITOF: r = dbits((double)(int64_t)a); isd = true; break;
        case OP_FTOI: if (!fits_int(fa, 8, true)) E.rc = CND_ERR_ARITHMETIC; else r = (uint64_t)(int64_t)fa; break;
        case OP_SQRT: if (fa < 0) E.rc = CND_ERR_ARITHMETIC; math = isd = true; break;
        case OP_LOG: if (fa <= 0) E.rc = CND_ERR_ARITHMETIC; math = isd = true; break;
        case OP_POW: if ((fa < 0 && floor(fb) != fb) || (fa == 0 && fb <= 0)) E.rc = CND_ERR_ARITHMETIC; math = isd = true; break;
        case OP_SIN: case OP_COS: case OP_TAN: case OP_ABS: math = isd = true; break;
    }
    if (math && E.rc == CND_ERR_OK) {
#ifdef __CPROVER__
        CK(T, returned && rc || mfn == OPC && same_double(dbits(ma), a) && (OPC != OP_POW || same_double(dbits(mb), b)), "the named math function is applied to the operands");
        r = dbits(mres);
#else
        double v = OPC == OP_SIN ? sin(fa) : OPC == OP_COS ? cos(fa) : OPC == OP_TAN ? tan(fa) : OPC == OP_SQRT ? sqrt(fa) : OPC == OP_LOG ? log(fa) : OPC == OP_ABS ? fabs(fa) : pow(fa, fb);
        r = dbits(v);
#endif
    }
    if (E.rc == CND_ERR_OK) {
        pushes(pops, r);
        if (isd && !(returned && rc)) {
            uint64_t got = C.expr_stack[S.expr_sp - pops];
            CK(T, same_double(got, r), "the result is the IEEE result");
            E.slotv = got; /* any NaN stands for any other */
        }
    }
    conclude(T, returned, rc, np);
}

/* --- computed fields --- */
static void spec_emit(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_EMIT;
    uint8_t type = OPTYPE(1);
    int n = type == OP_IO_BOOL ? 1 : imm_size(type);
    if (S.expr_sp == 0) E.rc = CND_ERR_STACK_UNDERFLOW;
    else if (n == 0) E.rc = CND_ERR_INVALID_OP;
    else if (!fits(n)) E.rc = CND_ERR_OOB;
    else {
        uint64_t v = TOP(0);
        float f = type == OP_IO_F32 ? (float)bits_to_double(v) : 0;
        E.cursor = cur + n;
        E.sp = S.expr_sp - 1;
        if (S.mode == CND_MODE_ENCODE) {
            E.lo = cur; E.hi = cur + n;
            uint8_t b[8];
            for (int i = 0; i < 8; i++) if (i < n) b[i] = D[cur + i];
            uint64_t got = compose(b, n, S.endianness);
            CK(T, returned && rc || (type == OP_IO_F32 ? same_float((uint32_t)got, fbits(f)) : got == low_n(v, n)), "the computed value is stored");
        } else if (type == OP_IO_F32) {
            float diff = f - bits_to_float((uint32_t)OLD(4));
            if (diff < -0.00001f || diff > 0.00001f) E.rc = CND_ERR_VALIDATION;
        } else if (type == OP_IO_F64) {
            double diff = bits_to_double(v) - bits_to_double(OLD(8));
            if (diff < -0.0000001 || diff > 0.0000001) E.rc = CND_ERR_VALIDATION;
        } else if (OLD(n) != low_n(v, n)) E.rc = CND_ERR_VALIDATION;
    }
    conclude(T, returned, rc, np);
}

/* --- arrays --- */
/* Where execution resumes after an empty array whose body starts at ip: reference
 * walk over whole instructions, used in bounded mode (see skip.c for the contract). */
static void spec_count(unsigned T, uint64_t count, size_t body, bool returned, cnd_error_t rc, size_t np) {
    if (count == 0) {
#if MATH_CONTRACT
        CK(T, returned && rc || skip_called && skip_from == body, "the body of an empty array is skipped");
        if (skip_called) E.np = skip_to; else E.any_np = true;
#else
        E.any_np = true;
#endif
        return;
    }
    int i = E.ncb;
    if (ncb > i && CB[i].type == OP_RAW_BYTES) {
        /* whole-array transfer: only as an equivalent of the element loop */
        bool body_ok = body + 3 < BL && (BC[body] == OP_IO_U8 || BC[body] == OP_IO_I8) && BC[body + 3] == OP_ARR_END;
        CK(T, body_ok && S.trans_type == CND_TRANS_NONE && !S.is_next_optional, "bytes are transferred as a block only for a plain array of bytes");
        CK(T, E.cursor <= DL && count <= DL - E.cursor && CB[i].ptr == D + E.cursor, "the block is exactly the array's bytes");
        if (body_ok) CK(T, CB[i].key == (uint16_t)(BC[body + 1] | (BC[body + 2] << 8)), "the block carries the element's key");
        E.ncb = i + 1;
        if (S.mode == CND_MODE_ENCODE && count <= DL - E.cursor) { E.hi = E.cursor + count; if (E.lo == 0 && !E.hi) E.lo = E.cursor; }
        if (CB[i].err == CND_ERR_OK) {
            E.cursor += count; E.np = body + 4;
            return;
        }
    }
    if (S.loop_depth >= CND_MAX_LOOP_DEPTH) { E.rc = OPC == OP_ARR_EOF ? CND_ERR_STACK_OVERFLOW : CND_ERR_OOB; return; }
    E.depth = S.loop_depth + 1; E.fslot = S.loop_depth; E.fr.start_ip = body; E.fr.remaining = (uint32_t)count; E.np = body;
}
static void spec_array(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_ARR;
    const bool enc = S.mode == CND_MODE_ENCODE;
    const uint16_t key = OPC == OP_ARR_END ? 0 : (uint16_t)opnd(1, 2);
    size_t body = E.np;
    E.lo = E.hi = cur;
    if (OPC == OP_ARR_PRE_U8 || OPC == OP_ARR_PRE_U16 || OPC == OP_ARR_PRE_U32) {
        int n = OPC == OP_ARR_PRE_U8 ? 1 : OPC == OP_ARR_PRE_U16 ? 2 : 4;
        if (enc) {
            if (call_is(T, 0, key, OPC)) {
                if (!fits(n)) E.rc = CND_ERR_OOB;
                else {
                    E.cursor = cur + n; E.hi = cur + n;
                    CK(T, returned && rc || stored(cur, n, CB[0].out), "the element count is stored");
                    spec_count(T, CB[0].out, body, returned, rc, np);
                }
            }
        } else if (!fits(n)) E.rc = CND_ERR_OOB;
        else {
            E.cursor = cur + n;
            if (call_is(T, 0, key, OPC)) {
                CK(T, CB[0].in == OLD(n), "the host is told the stored element count");
                spec_count(T, OLD(n), body, returned, rc, np);
            }
        }
    } else if (OPC == OP_ARR_FIXED) {
        if (call_is(T, 0, key, OPC)) {
            CK(T, CB[0].in == opnd(3, 4), "the host is told the fixed element count");
            spec_count(T, CB[0].out, body, returned, rc, np);
        }
    } else if (OPC == OP_ARR_DYNAMIC) {
        if (call_is(T, 0, (uint16_t)opnd(3, 2), OP_CTX_QUERY)) {
            uint64_t q = CB[0].out;
            if (q > 0xFFFFFFFFull) E.rc = CND_ERR_ARITHMETIC;
            else if (call_is(T, 1, key, OPC)) {
                CK(T, CB[1].in == q, "the host is told the referenced element count");
                spec_count(T, CB[1].out, body, returned, rc, np);
            }
        }
    } else if (OPC == OP_ARR_EOF) {
        if (cur >= DL) spec_count(T, 0, body, returned, rc, np);
        else { spec_count(T, 1, body, returned, rc, np); E.fr.remaining = 0; }
    } else if (OPC == OP_ARR_END) {
        if (S.loop_depth == 0) E.rc = CND_ERR_INVALID_OP;
        else {
            cnd_loop_frame f = S.loop_stack[S.loop_depth - 1];
            bool again = f.remaining == 0 ? cur < DL : f.remaining > 1;
            if (again) {
                E.np = f.start_ip; E.fslot = S.loop_depth - 1; E.fr = f;
                if (f.remaining) E.fr.remaining = f.remaining - 1;
            } else if (call_is(T, 0, 0, OP_ARR_END)) E.depth = S.loop_depth - 1;
        }
    } else { /* RAW_BYTES */
        size_t n = opnd(3, 4);
        if (!fits(n)) E.rc = CND_ERR_OOB;
        else {
            if (enc) { E.lo = cur; E.hi = cur + n; }
            if (call_is(T, 0, key, OPC)) { CK(T, CB[0].ptr == D + cur, "the host is given the field's bytes"); E.cursor = cur + n; }
        }
    }
    conclude(T, returned, rc, np);
}

/* --- strings --- */
static void spec_string(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_STR;
    const bool enc = S.mode == CND_MODE_ENCODE;
    const uint16_t key = (uint16_t)opnd(1, 2);
    const int pre = OPC == OP_STR_PRE_U8 ? 1 : OPC == OP_STR_PRE_U16 ? 2 : OPC == OP_STR_PRE_U32 ? 4 : 0;
    size_t limit = pre == 0 ? opnd(3, 2) : pre == 1 ? 0xFF : pre == 2 ? 0xFFFF : 0xFFFFFFFFul;
    E.opt = false;
    if (enc) {
        if (!call_is(T, 0, key, OPC)) {
            if (S.is_next_optional) E.rc = CND_ERR_OK; /* an optional string the host does not have is omitted */
        } else {
            size_t len = HS_null ? 0 : HL;
            if (len > limit) len = limit;
            size_t total = pre ? pre + len : len + 1;
            if (!fits(total)) E.rc = CND_ERR_OOB;
            else {
                E.lo = cur; E.hi = cur + total; E.cursor = cur + total;
                if (!(returned && rc)) {
                    if (pre) CK(T, stored(cur, pre, len), "the length prefix is stored");
                    else CK(T, D[cur + len] == 0, "the terminator is stored");
                    if (GI < DL && GI >= cur + pre && GI < cur + pre + len) CK(T, D[GI] == (uint8_t)HS[GI - cur - pre], "the characters are stored");
                }
            }
        }
    } else if (pre) {
        uint64_t len = fits(pre) ? OLD(pre) : 0;
        if (!fits(pre) || len > DL - cur - pre) {
            if (!S.is_next_optional) E.rc = CND_ERR_OOB;
            else if (call_is(T | T_OPT, 0, key, OPC)) CK(T | T_OPT, CB[0].in == 0, "a missing optional string is delivered empty");
        } else {
            E.cursor = cur + pre + len;
            if (call_is(T, 0, key, OPC)) CK(T, CB[0].ptr == D + cur + pre && CB[0].in == len, "the host is given the field's characters");
        }
    } else {
        size_t reach = DL - cur < limit ? DL - cur : limit; /* the terminator must be among the first limit+1 bytes */
        if (returned && rc == CND_ERR_VALIDATION) {
            E.rc = CND_ERR_VALIDATION;
            CK(T, cur + limit < DL && (GI < cur || GI > cur + limit || GOLD != 0), "a string is rejected only if no terminator is within its maximum length");
        } else if (returned && rc == CND_ERR_OOB) {
            E.rc = CND_ERR_OOB;
            CK(T, !S.is_next_optional && DL - cur <= limit && (GI < cur || GI >= DL || GOLD != 0), "a string is out of bounds only if the data ends before its terminator");
        } else if (ncb == 1 && S.is_next_optional && C.cursor == cur && CB[0].ptr != D + cur) {
            CK(T, DL - cur <= limit && (GI < cur || GI >= DL || GOLD != 0), "an optional string is missing only if the data ends before its terminator");
            if (call_is(T | T_OPT, 0, key, OPC)) CK(T | T_OPT, *(const uint8_t*)CB[0].ptr == 0, "a missing optional string is delivered empty");
        } else {
            if (call_is(T, 0, key, OPC)) {
                E.any_cursor = true;
                CK(T, CB[0].ptr == D + cur, "the host is given the field's characters");
                CK(T, C.bit_offset == 0 && C.cursor > cur && C.cursor <= DL && C.cursor - 1 - cur <= reach && D[C.cursor - 1] == 0, "the cursor is just past a terminator within the maximum length");
                CK(T, !(GI >= cur && GI < C.cursor - 1) || D[GI] != 0, "and it is the first one");
            }
        }
    }
    conclude(T | T_OPT, returned, rc, np);
}

/* --- control flow --- */
static int32_t table_i32(size_t at) { /* at: absolute bytecode position */
    return (int32_t)((uint32_t)BC[at] | ((uint32_t)BC[at + 1] << 8) | ((uint32_t)BC[at + 2] << 16) | ((uint32_t)BC[at + 3] << 24));
}
static uint64_t table_u64(size_t at) { return (uint64_t)(uint32_t)table_i32(at) | ((uint64_t)(uint32_t)table_i32(at + 4) << 32); }
static void jumps(int32_t off) {
    int64_t t = (int64_t)E.np + off;
    if (t < 0 || (uint64_t)t > BL) E.rc = CND_ERR_OOB;
    else E.np = (size_t)t;
}
static void spec_flow(bool returned, cnd_error_t rc, size_t np) {
    const unsigned T = T_FLOW;
    if (OPC == OP_JUMP) jumps((int32_t)opnd(1, 4));
    else if (OPC == OP_JUMP_IF_NOT) {
        if (S.expr_sp == 0) E.rc = CND_ERR_STACK_UNDERFLOW;
        else { E.sp = S.expr_sp - 1; if (TOP(0) == 0) jumps((int32_t)opnd(1, 4)); }
    } else {
        size_t t = IP0 + 7 + opnd(3, 4);
        size_t avail = t <= BL ? BL - t : 0;
        if (t > BL || avail < (OPC == OP_SWITCH ? 6 : 20)) E.rc = CND_ERR_OOB;
        else if (OPC == OP_SWITCH) {
            size_t count = (size_t)BC[t] | ((size_t)BC[t + 1] << 8);
            if ((avail - 6) / 12 < count) E.rc = CND_ERR_OOB;
            else if (call_is(T, 0, (uint16_t)opnd(1, 2), OP_CTX_QUERY)) {
                int32_t off = table_i32(t + 2);
                bool found = false;
#if defined(LOOP_switch_cases) && MATH_CONTRACT
                /* the first match is taken (g_at: the entry looked at; g_x is arbitrary) */
                if (g_at < count && g_ata == t + 6 + 12 * g_at && g_atv == CB[0].out) {
                    off = (int32_t)g_ato;
                    CK(T, g_x >= g_at || (g_xp == t + 6 + 12 * g_x && g_xv != CB[0].out), "the first matching case is taken");
                } else CK(T, g_x >= count || (g_xp == t + 6 + 12 * g_x && g_xv != CB[0].out), "the default is taken only if no case matches");
                (void)found;
#else
                for (size_t i = 0; i < SWITCH_MAX; i++)
                    if (i < count && !found && table_u64(t + 6 + 12 * i) == CB[0].out) { found = true; off = table_i32(t + 6 + 12 * i + 8); }
#endif
                jumps(off);
            }
        } else if (call_is(T, 0, (uint16_t)opnd(1, 2), OP_CTX_QUERY)) {
            uint64_t lo = table_u64(t), hi = table_u64(t + 8), v = CB[0].out;
            if (v < lo || v > hi) jumps(table_i32(t + 16));
            else if (v - lo >= (avail - 20) / 4) E.rc = CND_ERR_OOB;
            else jumps(table_i32(t + 20 + 4 * (size_t)(v - lo)));
        }
    }
    conclude(T, returned, rc, np);
}

static bool is_flow(void) { return OPC >= OP_JUMP_IF_NOT && OPC <= OP_SWITCH_TABLE; }

/* the data ends inside the field (-DSHORT: a truncated message) */
static bool is_short(void) {
    cur = S.cursor + (spec_aligns() && S.bit_offset ? 1 : 0);
    if (OPC == OP_IO_BIT_BOOL) return !bits_fit(1);
    if (OPC == OP_IO_BIT_U || OPC == OP_IO_BIT_I) return opnd(3, 1) <= 64 && !bits_fit(opnd(3, 1));
    if (OPC == OP_ALIGN_PAD) return !bits_fit(opnd(1, 1));
    if (OPC >= OP_IO_U8 && OPC <= OP_IO_BOOL) return !fits(prim_size());
    if (OPC >= OP_STR_PRE_U8 && OPC <= OP_STR_PRE_U32) return true; /* the characters may be missing too */
    if (OPC == OP_ARR_PRE_U8) return S.mode == CND_MODE_DECODE || !fits(1);
    if (OPC == OP_ARR_PRE_U16) return S.mode == CND_MODE_DECODE || !fits(2);
    if (OPC == OP_ARR_PRE_U32) return S.mode == CND_MODE_DECODE || !fits(4);
    if (OPC == OP_CONST_CHECK) return !fits(imm_size(OPTYPE(3)));
    if (OPC == OP_CRC_16) return !fits(2);
    if (OPC == OP_CRC_32) return !fits(4);
    if (OPC == OP_RAW_BYTES) return !fits(opnd(3, 4));
    if (OPC == OP_EMIT) return S.expr_sp > 0 && !fits(OPTYPE(1) == OP_IO_BOOL ? 1 : imm_size(OPTYPE(1)));
    return true;
}

/* --- dispatch --- */
static void spec_pre(void) {
    GB = (unsigned)(ND() & 0xFF);
#ifdef ITYPE
    H_ASSUME(opnd(OPC == OP_CONST_CHECK ? 3 : 1, 1) == (ITYPE));
#endif
#ifdef ITYPE_OTHER /* the remaining operand types */
    REACH("precondition is satisfiable for other operand types");
    { uint32_t ty = opnd(OPC == OP_CONST_CHECK ? 3 : 1, 1); H_ASSUME(ty < 0x10 || ty > (ITYPE_OTHER)); }
#endif
    if (!COMPLETE) return;
    size_t n = ilen(BL - IP0);
    if (TAGS & T_LAYOUT) return;
    H_ASSUME(n <= BL - IP0);
    if (OPC == OP_CONST_WRITE || OPC == OP_CONST_CHECK || OPC == OP_RANGE_CHECK || OPC == OP_ENUM_CHECK) H_ASSUME(n > 0);
    if (OPC == OP_IO_BOOL) H_ASSUME(C.trans_type == CND_TRANS_NONE); /* the compiler allows no transform on bool */
#if !defined(LOOP_switch_cases) || !MATH_CONTRACT
    if (OPC == OP_SWITCH) {
        size_t t = IP0 + 7 + opnd(3, 4);
        if (t <= BL && BL - t >= 2) H_ASSUME(((size_t)BC[t] | ((size_t)BC[t + 1] << 8)) <= SWITCH_MAX);
    }
#endif
#if !defined(LOOP_enum_check) || !MATH_CONTRACT
    if (OPC == OP_ENUM_CHECK) H_ASSUME(opnd(2, 2) <= ENUM_MAX);
#endif
#ifdef SHORT
    H_ASSUME(is_short());
    REACH("the message can end inside the field");
#endif
}

static void spec_post(bool returned, cnd_error_t rc, size_t np) {
    reset_expected();
    if (TAGS & T_LAYOUT) {
        /* the shared layout description agrees with what the VM consumed */
        size_t n = 0, want = ilen(BL - IP0);
        cnd_error_t e = cnd_il_instr_len(BC, BL, IP0, &n);
        CK(T_LAYOUT, (e == CND_ERR_OK) == (want > 0 && want <= BL - IP0), "an instruction is well formed exactly if all its operands are there");
        if (e == CND_ERR_OK) {
            CK(T_LAYOUT, n == want, "instruction length is the documented one");
            bool moves = is_flow() || (OPC >= OP_ARR_FIXED && OPC <= OP_ARR_DYNAMIC && OPC != OP_RAW_BYTES);
            if (!moves && !(returned && rc)) CK(T_LAYOUT, np == IP0 + n, "the VM consumes exactly the instruction's length");
        }
    }
#if !defined(SHORT) && !defined(ITYPE_OTHER)
    if (!(returned && rc != CND_ERR_OK)) REACH("the instruction can complete");
#endif
    if (!(TAGS & ~(T_MEM | T_LAYOUT))) return;
    if (OPC == OP_IO_BIT_U || OPC == OP_IO_BIT_I || OPC == OP_IO_BIT_BOOL || (OPC >= OP_ALIGN_PAD && OPC <= OP_EXIT_BIT_MODE)) spec_bits(returned, rc, np);
    else if (OPC >= OP_IO_U8 && OPC <= OP_IO_BOOL) spec_prim(returned, rc, np);
    else if (OPC >= OP_STR_NULL && OPC <= OP_STR_PRE_U32) spec_string(returned, rc, np);
    else if (OPC >= OP_ARR_FIXED && OPC <= OP_ARR_DYNAMIC) spec_array(returned, rc, np);
    else if (OPC == OP_CONST_CHECK || OPC == OP_CONST_WRITE || OPC == OP_RANGE_CHECK || OPC == OP_ENUM_CHECK) spec_valid(returned, rc, np);
    else if (OPC == OP_CRC_16 || OPC == OP_CRC_32) spec_crc(returned, rc, np);
    else if (is_flow()) spec_flow(returned, rc, np);
    else if (OPC == OP_EMIT) spec_emit(returned, rc, np);
    else if ((OPC >= OP_LOAD_CTX && OPC <= OP_DUP) || (OPC >= OP_EQ && OPC <= OP_STORE_CTX) || (OPC >= OP_FADD && OPC <= OP_ABS) ||
             (OPC >= OP_ITOF && OPC <= OP_LTE_F) || (OPC >= OP_BIT_AND && OPC <= OP_SHR)) spec_alu(returned, rc, np);
    else spec_meta(returned, rc, np);
}
