/* Contracts of cnd_il_switch_table and (as its callers rely on it) cnd_il_instr_len (cnd_il_layout.h). */
#include "concordia.h"
#include "nd.h"
enum { T_LAYOUT = 1, T_MEM = 2 };
#ifndef TAGS
#define TAGS 3
#endif
#define OPC 0
#ifndef BCAP
#define BCAP 48
#endif
#include "cnd_contracts.h"
#include "cnd_il_layout.h"
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#endif
static uint8_t* d; static size_t n;
static uint64_t le(size_t at, int bytes) { uint64_t v = 0; for (int i = 0; i < 8; i++) if (i < bytes) v |= (uint64_t)d[at + i] << (8 * i); return v; }

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    n = (size_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(n <= BCAP);
#else
    H_ASSUME(n <= (size_t)1 << 40);
#endif
    d = nd_alloc(BCAP, n); H_ASSUME(d != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < n) d[i] = v; }
#endif
    size_t ip = (size_t)ND();
    H_ASSUME(ip < n);
    REACH("precondition is satisfiable");
#if FN == 1
    size_t len = 0;
    cnd_error_t rc = cnd_il_instr_len(d, n, ip, &len);
    uint8_t op = d[ip];
    if (rc == CND_ERR_OK) {
        CK(T_LAYOUT, len >= 1 && len <= n - ip, "an accepted instruction lies inside the program");
        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) CK(T_LAYOUT, len == 7, "length of a switch");
        if (op == OP_JUMP || op == OP_JUMP_IF_NOT) CK(T_LAYOUT, len == 5, "length of a jump");
    } else CK(T_LAYOUT, rc == CND_ERR_OOB || rc == CND_ERR_INVALID_OP, "documented error codes");
#elif FN == 2
    size_t s = 0, e = 0;
    H_ASSUME(n - ip >= 7 && d[ip] == OP);
    cnd_error_t rc = cnd_il_switch_table(d, n, ip, &s, &e);
    size_t rel = (size_t)le(ip + 3, 4), room = n - ip - 7;
    if (rel > room || room - rel < (OP == OP_SWITCH ? 6 : 20)) CK(T_LAYOUT, rc == CND_ERR_OOB, "a table outside the program is refused");
    else {
        size_t at = ip + 7 + rel, avail = room - rel;
        if (OP == OP_SWITCH) {
            size_t size = 6 + 12 * (size_t)le(at, 2);
            if (size > avail) CK(T_LAYOUT, rc == CND_ERR_OOB, "a table that does not fit is refused");
            else CK(T_LAYOUT, rc == CND_ERR_OK && s == at && e == at + size, "the table found is the one the interpreter reads");
        } else {
            uint64_t lo = le(at, 8), hi = le(at + 8, 8);
            if (hi < lo) CK(T_LAYOUT, rc == CND_ERR_VALIDATION, "an empty value range is refused");
            else if (hi - lo >= (avail - 20) / 4) CK(T_LAYOUT, rc == CND_ERR_OOB, "a table that does not fit is refused");
            else CK(T_LAYOUT, rc == CND_ERR_OK && s == at && e == at + 20 + 4 * (hi - lo + 1), "the table found is the one the interpreter reads");
        }
    }
#endif
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
