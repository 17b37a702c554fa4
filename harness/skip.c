/* Contract of skip_loop_body (vm_exec.c): from the first instruction of an array body it moves the
 * instruction pointer just past the matching ARR_END, walking whole instructions and stepping over the
 * inline tables of the switches it meets; in a malformed body it stops at the end of the program.
 * Instruction lengths and table positions: the contract of cnd_il_instr_len (proved under C16) and
 * cnd_il_switch_table (switch_table.c). The loop carries an invariant: the code's state is that of a ghost walker. */
#include "concordia.h"
#include "nd.h"
enum { T_ARR = 1, T_MEM = 2 };
#ifndef TAGS
#define TAGS 3
#endif
#define OPC 0
#ifndef BCAP
#define BCAP 28
#endif
const uint8_t* k_bc; size_t k_len, k_ip, k_s[CND_MAX_LOOP_DEPTH], k_e[CND_MAX_LOOP_DEPTH]; int k_tables, k_depth; bool k_bad;
size_t k_il_ip, k_il_len, k_st_ip, k_st_s, k_st_e; int k_il_rc, k_st_rc; bool k_il_has, k_st_has;
#include "cnd_contracts.h"
#include "cnd_il_layout.h"
#if defined(LOOP_skip_body)
cnd_error_t stub_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out);
cnd_error_t stub_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end);
#define cnd_il_instr_len stub_instr_len
#define cnd_il_switch_table stub_switch_table
#endif
#include "vm_exec.c"
#undef memcpy
#undef memchr
#undef strlen
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#else
void* h_memcpy_var(void* d, const void* s, size_t n) { return d; }
void* h_memchr(const void* s, int c, size_t n) { return 0; }
size_t h_strlen(const char* s) { return 0; }
double h_math1(int fn, double a) { return 0; }
double h_math2(int fn, double a, double b) { return 0; }
#endif
#if defined(LOOP_skip_body)
/* deterministic functions of the position, satisfying their contracts */
size_t nondet_size(void); int nondet_int(void);
cnd_error_t stub_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out) {
    __CPROVER_assert(bc == k_bc && len == k_len && ip < len, "contract: precondition of cnd_il_instr_len");
    if (!k_il_has || k_il_ip != ip) {
        k_il_has = 1; k_il_ip = ip; k_il_rc = nondet_int(); k_il_len = nondet_size();
        __CPROVER_assume(k_il_rc != CND_ERR_OK || (k_il_len >= 1 && k_il_len <= len - ip &&
            (bc[ip] != OP_SWITCH && bc[ip] != OP_SWITCH_TABLE || k_il_len == 7)));
    }
    if (k_il_rc == CND_ERR_OK) *out = k_il_len;
    return k_il_rc;
}
cnd_error_t stub_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end) {
    __CPROVER_assert(bc == k_bc && len == k_len && ip < len && len - ip >= 7 && (bc[ip] == OP_SWITCH || bc[ip] == OP_SWITCH_TABLE), "contract: precondition of cnd_il_switch_table");
    if (!k_st_has || k_st_ip != ip) {
        k_st_has = 1; k_st_ip = ip; k_st_rc = nondet_int(); k_st_s = nondet_size(); k_st_e = nondet_size();
        __CPROVER_assume(k_st_rc != CND_ERR_OK || (k_st_s >= ip + 7 && k_st_s < k_st_e && k_st_e <= len));
    }
    if (k_st_rc == CND_ERR_OK) { *start = k_st_s; *end = k_st_e; }
    return k_st_rc;
}
#endif
void h_skip_step(void) { /* one step of the ghost walker */
    k_il_has = k_st_has = 0;
    if (k_tables > 0 && k_ip == k_s[k_tables - 1]) { k_tables--; k_ip = k_e[k_tables]; return; }
    uint8_t op = k_bc[k_ip];
    size_t n = 0, s = 0, e = 0;
    if (cnd_il_instr_len(k_bc, k_len, k_ip, &n) != CND_ERR_OK) { k_bad = 1; k_ip = k_len; return; }
    if ((op == OP_SWITCH || op == OP_SWITCH_TABLE) && k_tables < CND_MAX_LOOP_DEPTH &&
        cnd_il_switch_table(k_bc, k_len, k_ip, &s, &e) == CND_ERR_OK) { k_s[k_tables] = s; k_e[k_tables] = e; k_tables++; }
    if ((op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) k_depth++;
    if (op == OP_ARR_END) k_depth--;
    k_ip += n;
}

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    static cnd_vm_ctx C, S; static cnd_program P;
    memset(&C, 0, sizeof C); memset(&P, 0, sizeof P);
    size_t n = (size_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(n <= BCAP);
#else
    H_ASSUME(n <= 0x7FFFFFFE);
#endif
    uint8_t* d = nd_alloc(BCAP, n); H_ASSUME(d != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < n) d[i] = v; }
#endif
    P.bytecode = d; P.bytecode_len = n; C.program = &P; C.ip = (size_t)ND();
    H_ASSUME(C.ip <= n);
    S = C;
    k_bc = d; k_len = n; k_ip = C.ip; k_tables = 0; k_depth = 1; k_bad = 0; k_il_has = k_st_has = 0;
    REACH("precondition is satisfiable");
    skip_loop_body(&C);
#if !defined(LOOP_skip_body)
    while (k_ip < k_len && k_depth > 0) h_skip_step();
#endif
    CK(T_ARR | T_MEM, C.ip >= S.ip && C.ip <= n, "the walk ends inside the program or at its end");
    CK(T_ARR, C.ip == k_ip, "execution continues just past the end of the empty array's body");
    CK(T_ARR, C.ip == n || k_depth == 0, "the walk ends behind the matching array end or at the end of the program");
    C.ip = S.ip;
    CK(T_ARR, C.cursor == S.cursor && C.loop_depth == S.loop_depth && C.expr_sp == S.expr_sp && C.program == S.program && C.bit_offset == S.bit_offset &&
        C.trans_type == S.trans_type && C.data_buffer == S.data_buffer, "nothing else in the context changes");
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
