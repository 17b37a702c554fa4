/* Contract of cnd_verify_program (vm_verify.c), for programs of every length. If it accepts:
 *  - the walk starts at the first byte, each step continues just behind the instruction or, at a table
 *    announced by an earlier switch, behind that table, and it ends exactly at the end of the program;
 *  - at an arbitrary position v_p that the walk visited as an instruction: the instruction is complete and
 *    valid, its jump target lies inside the program, its switch table lies inside the program and so does
 *    the target of the default and of an arbitrary entry v_x.
 * cnd_il_instr_len and cnd_il_switch_table: by contract (layout.c, C16). The three loops carry invariants. */
#include "concordia.h"
#include "nd.h"
enum { T_VERIFY = 1, T_MEM = 2, T_WALK = 4 };
#ifndef TAGS
#define TAGS 7
#endif
#define OPC 0
#ifndef BCAP
#define BCAP 40
#endif
const uint8_t* v_bc; size_t v_len;
size_t v_p, v_s; uint32_t v_x, v_n; /* the arbitrary instruction; its table's start and number of entries */
int v_rc, v_strc; size_t v_il;
size_t v_prev, v_lastlen, v_ts, v_te, v_first; uint32_t v_k, v_cn; int v_stride; /* the walk */
bool v_seen, v_start, v_called, v_pair; size_t v_gs, v_ge; /* an arbitrary table */
#include "cnd_contracts.h"
#include "cnd_il_layout.h"
#if defined(LOOP_verify_walk)
cnd_error_t stub_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out);
cnd_error_t stub_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end);
#define cnd_il_instr_len stub_instr_len
#define cnd_il_switch_table stub_switch_table
#endif
#include "vm_verify.c"
#undef memcpy
#undef memchr
#undef strlen
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#endif
#define SW(p) (v_bc[p] == OP_SWITCH || v_bc[p] == OP_SWITCH_TABLE)
#define FIRST(op, s) ((op) == OP_SWITCH ? (s) + 14 : (s) + 20)
#define DEF(op, s) ((op) == OP_SWITCH ? (s) + 2 : (s) + 16)
#define STRIDE(op) ((op) == OP_SWITCH ? 12 : 4)
#if defined(LOOP_verify_walk)
uint32_t nondet_size(void); int nondet_int(void);
static bool nlen_ok(size_t p, size_t n) { /* what the lengths of jumps and switches are */
    uint8_t op = v_bc[p];
    return n >= 1 && n <= v_len - p && (op != OP_JUMP && op != OP_JUMP_IF_NOT || n == 5) && (!SW(p) || n == 7);
}
/* a table of n entries inside the program */
static bool table_ok(size_t p, size_t s, uint32_t n) {
    return s >= p + 7 && s <= v_len && n <= v_len && (v_bc[p] == OP_SWITCH ? v_len - s >= 6 && n <= 65535 && (size_t)n * 12 <= v_len - s - 6 : v_len - s >= 20 && n >= 1 && n <= (v_len - s - 20) / 4);
}
cnd_error_t stub_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out) {
    __CPROVER_assert(bc == v_bc && len == v_len && ip < len && ip == v_prev, "contract: precondition of cnd_il_instr_len");
    int rc = nondet_int(); size_t n = nondet_size();
    if (ip == v_p) { rc = v_rc; n = v_il; v_seen = 1; }
    if (rc != CND_ERR_OK) return rc;
    __CPROVER_assume(nlen_ok(ip, n));
    *out = n; v_lastlen = n; v_called = 1;
    return rc;
}
cnd_error_t stub_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end) {
    __CPROVER_assert(bc == v_bc && len == v_len && ip < len && len - ip >= 7 && SW(ip) && ip == v_prev, "contract: precondition of cnd_il_switch_table");
    int rc = nondet_int(); size_t s = nondet_size(); uint32_t n = nondet_size();
    if (ip == v_p) { rc = v_strc; s = v_s; n = v_n; }
    if (rc != CND_ERR_OK) return rc;
    __CPROVER_assume(table_ok(ip, s, n));
    uint8_t op = bc[ip];
    *start = v_ts = s; *end = v_te = op == OP_SWITCH ? s + 6 + 12 * (size_t)n : s + 20 + 4 * (size_t)n;
    v_k = 0; v_cn = n; v_first = FIRST(op, s); v_stride = STRIDE(op);
    if (v_ts == v_gs && v_te == v_ge) v_pair = 1;
    return rc;
}
#endif
static bool target_ok(size_t base, size_t at) { /* the signed offset at `at` leads from base into the program or to its end */
    int64_t off = (int32_t)((uint32_t)v_bc[at] | (uint32_t)v_bc[at + 1] << 8 | (uint32_t)v_bc[at + 2] << 16 | (uint32_t)v_bc[at + 3] << 24);
    return off >= -(int64_t)base && off <= (int64_t)(v_len - base);
}
static bool instruction_ok(size_t p, int rc, int strc, size_t s, uint32_t n, uint32_t x) {
    uint8_t op = v_bc[p];
    if (rc != CND_ERR_OK) return false;
    if (op == OP_JUMP || op == OP_JUMP_IF_NOT) return target_ok(p + 5, p + 1);
    if (!SW(p)) return true;
    if (strc != CND_ERR_OK || !target_ok(p + 7, DEF(op, s))) return false;
    return x >= n || target_ok(p + 7, FIRST(op, s) + (size_t)x * STRIDE(op));
}

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    static cnd_program P; memset(&P, 0, sizeof P);
    size_t n = (uint32_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(n <= BCAP);
#else
    /* programs of less than 4 GiB */
#endif
    uint8_t* d = nd_alloc(BCAP, n); H_ASSUME(d != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < n) d[i] = v; }
#endif
    P.bytecode = d; P.bytecode_len = n;
    v_bc = d; v_len = n;
    v_p = (uint32_t)ND(); v_x = (uint32_t)ND();
    v_seen = v_called = v_pair = 0; v_start = 1;
#if defined(LOOP_verify_walk)
    v_rc = nondet_int(); v_strc = nondet_int(); v_il = nondet_size(); v_s = nondet_size(); v_n = nondet_size(); v_gs = nondet_size(); v_ge = nondet_size();
    if (v_p < n) {
        if (v_rc == CND_ERR_OK) H_ASSUME(nlen_ok(v_p, v_il));
        if (v_rc == CND_ERR_OK && SW(v_p) && v_strc == CND_ERR_OK) H_ASSUME(table_ok(v_p, v_s, v_n));
    }
#endif
    REACH("precondition is satisfiable");
    cnd_error_t rc = cnd_verify_program(&P);
#if defined(LOOP_verify_walk)
    if (rc == CND_ERR_OK && v_seen) {
        CK(T_VERIFY, v_rc == CND_ERR_OK, "an accepted program consists of complete, valid instructions");
        CK(T_VERIFY, v_rc != CND_ERR_OK || instruction_ok(v_p, v_rc, v_strc, v_s, v_n, v_x), "jump targets and switch tables of an accepted program lie inside it");
        REACH("an instruction of an accepted program is examined");
    }
    if (rc == CND_ERR_OK && n > 0) CK(T_WALK, !v_start, "a program is walked from its first byte to its end");
#else /* concrete: walk it here */
    if (rc == CND_ERR_OK) {
        static size_t ts[64], te[64]; int nt = 0; size_t ip = 0;
        while (ip < n) {
            int t = 0; size_t len = 0, s = 0, e = 0;
            while (t < nt && ts[t] != ip) t++;
            if (t < nt) { ip = te[t]; nt--; ts[t] = ts[nt]; te[t] = te[nt]; continue; }
            int r1 = cnd_il_instr_len(d, n, ip, &len);
            CK(T_VERIFY, r1 == CND_ERR_OK, "an accepted program consists of complete, valid instructions");
            H_ASSUME(r1 == CND_ERR_OK);
            int r2 = SW(ip) ? cnd_il_switch_table(d, n, ip, &s, &e) : CND_ERR_OK;
            CK(T_VERIFY, r2 == CND_ERR_OK, "jump targets and switch tables of an accepted program lie inside it");
            H_ASSUME(r2 == CND_ERR_OK);
            size_t cnt = !SW(ip) ? 0 : d[ip] == OP_SWITCH ? (e - s - 6) / 12 : (e - s - 20) / 4;
            for (size_t x = 0; x < (cnt ? cnt : 1); x++)
                CK(T_VERIFY, instruction_ok(ip, r1, r2, s, cnt, x), "jump targets and switch tables of an accepted program lie inside it");
            if (SW(ip)) { ts[nt] = s; te[nt] = e; nt++; }
            ip += len;
        }
    }
#endif
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
