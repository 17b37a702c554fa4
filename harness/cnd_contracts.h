/* Supplied by /verif when /repo is compiled with -DCND_CONTRACTS.
 *
 * Included by /repo's vm_internal.h in place of the production definition of
 * CND_FETCH_OP. The first opcode fetch of cnd_execute starts the instruction
 * under contract; the second one is the boundary after it, where the contract's
 * postcondition is checked and the path ends. Together: one arbitrary iteration
 * of the interpreter loop, from any state that satisfies the invariant.
 */
#ifndef CND_CONTRACTS_H
#define CND_CONTRACTS_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>

extern int h_steps;
void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc);

#ifdef __CPROVER__
#define H_ASSUME(c) __CPROVER_assume(c)
#define H_FETCH_FIRST(pc) __CPROVER_assume(*(pc) == (uint8_t)(OPC))
#else
void h_assume_failed(void);
#define H_ASSUME(c) do { if (!(c)) h_assume_failed(); } while (0)
#define H_FETCH_FIRST(pc) H_ASSUME(*(pc) == (uint8_t)(OPC))
#endif

#define CND_FETCH_OP(ctx, pc) ({ \
    if (h_steps == 0) { h_steps = 1; H_FETCH_FIRST(pc); (pc)++; } \
    else { h_boundary((ctx), (pc)); } \
    (uint8_t)(OPC); })

/* --- Loop invariants ---
 * Enabled one by one (-DLOOP_<name>); a loop whose invariant is not enabled is unwound. */
#define CND_LOOP(name) CND_LOOP_##name
#define CND_STEP(name) CND_STEP_##name
#include "loops.h"

#ifdef __CPROVER__
/* --- Contracts assumed on libc (trusted base) --- */
struct h_b4 { uint8_t b[4]; };
struct h_b8 { uint8_t b[8]; };
void* h_memcpy_var(void* d, const void* s, size_t n);
void* h_memchr(const void* s, int c, size_t n);
size_t h_strlen(const char* s);
double h_math1(int fn, double a);
double h_math2(int fn, double a, double b);
#define memcpy(d, s, n) (__builtin_constant_p(n) && (n) == 8 ? (void)(*(struct h_b8*)(d) = *(const struct h_b8*)(s)) : \
                         __builtin_constant_p(n) && (n) == 4 ? (void)(*(struct h_b4*)(d) = *(const struct h_b4*)(s)) : \
                         (void)h_memcpy_var((d), (s), (n)))
#define memchr(s, c, n) h_memchr((s), (c), (n))
#define strlen(s) h_strlen(s)
#define sin(a)  h_math1(OP_SIN, (a))
#define cos(a)  h_math1(OP_COS, (a))
#define tan(a)  h_math1(OP_TAN, (a))
#define log(a)  h_math1(OP_LOG, (a))
#define sqrt(a) h_math1(OP_SQRT, (a))
#define fabs(a) h_math1(OP_ABS, (a))
#define pow(a, b) h_math2(OP_POW, (a), (b))
#endif

#endif
