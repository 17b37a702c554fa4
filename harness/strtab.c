/* Contracts of cnd_program_load_il (FN 1), cnd_get_key_name (FN 2), cnd_get_key_id (FN 3), cnd_init and
 * cnd_program_load (FN 4) in vm_exec.c, for images and string tables of every size. l_pos is the ghost
 * position of the string the walk is at, l_q the position of its terminator. */
#include "concordia.h"
#include "nd.h"
#include <string.h>
enum { T_LOAD = 1, T_MEM = 2 };
#ifndef TAGS
#define TAGS 3
#endif
#define OPC 0
#ifndef BCAP
#define BCAP 28
#endif
const uint8_t* l_im; size_t l_len, l_pos, l_q; uint32_t l_n; bool l_fail, l_hit, l_started; const char* l_name;
#include "cnd_contracts.h"
#undef memchr
#undef strcmp
#undef memcmp
#ifdef __CPROVER__
#define HAVE_MODELS
const void* h_memchr0(const void* s, int c, size_t n);
int h_strcmp(const char* a, const char* b);
int h_memcmp5(const void* a, const void* b, size_t n);
#define memchr(s, c, n) ((void*)h_memchr0((s), (c), (n)))
#define strcmp(a, b) h_strcmp((a), (b))
#define memcmp(a, b, n) h_memcmp5((a), (b), (n))
#endif
#include "vm_exec.c"
#undef memcpy
#undef memchr
#undef strcmp
#undef memcmp
#undef strlen
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#else
void* h_memcpy_var(void* d, const void* s, size_t n) { return d; }
void* h_memchr(const void* s, int c, size_t n) { return 0; }
size_t h_strlen(const char* s) { return 0; }
double h_math1(int fn, double a) { return 0; }
double h_math2(int fn, double a, double b) { return 0; }
size_t nondet_size(void); int nondet_int(void);
int h_memcmp5(const void* a, const void* b, size_t n) {
    __CPROVER_assert(n == 5, "contract: the magic is five bytes");
    const uint8_t *x = a, *y = b;
    return x[0] != y[0] || x[1] != y[1] || x[2] != y[2] || x[3] != y[3] || x[4] != y[4];
}
#ifdef BOUNDED_INPUTS /* executable models */
const void* h_memchr0(const void* s, int c, size_t n) {
    for (size_t i = 0; i < n; i++) if (((const uint8_t*)s)[i] == (uint8_t)c) return (const uint8_t*)s + i;
    return 0;
}
int h_strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(uint8_t)a[i] - (int)(uint8_t)b[i]; }
#else
/* memchr: the first zero byte of the region if there is one */
const void* h_memchr0(const void* s, int c, size_t n) {
    __CPROVER_assert(c == 0 && (const uint8_t*)s == l_im + l_pos && n == l_len - l_pos, "contract: the rest of the image is searched for the string's terminator");
    size_t q = nondet_size();
    if (q == (size_t)-1) { l_fail = 1; return 0; }
    __CPROVER_assume(q >= l_pos && q < l_len && l_im[q] == 0);
    l_pos = q + 1; l_n++;
    return l_im + q;
}
int h_strcmp(const char* a, const char* b) {
    __CPROVER_assert((const uint8_t*)a == l_im + l_pos && b == l_name, "contract: the name is compared with the string the walk is at");
    int r = nondet_int();
    l_hit = r == 0;
    return r;
}
#endif
#endif
/* The walk reaches string l_n, at position p. That the previous string (at l_pos) ends at its first zero byte, l_q,
 * is instantiated at the byte before p; the string at p is terminated too (precondition). */
#ifdef __CPROVER__
void h_string(size_t p) {
    if (l_started) {
        __CPROVER_assume(!(p >= 1 && p - 1 >= l_pos && p - 1 < l_q && l_im[p - 1] == 0));
        __CPROVER_assert(p == l_q + 1, "contract: the walk moves to the byte behind the string's terminator");
        l_pos = p; l_n++;
    } else { __CPROVER_assert(p == 0, "contract: the walk starts at the first string"); }
    l_started = 1;
    l_q = nondet_size();
    __CPROVER_assume(l_q >= l_pos && l_q < l_len && l_im[l_q] == 0);
}
#endif

static uint32_t le(const uint8_t* p, int n) { uint32_t v = 0; for (int i = 0; i < 4; i++) if (i < n) v |= (uint32_t)p[i] << (8 * i); return v; }

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    static cnd_program P, S; memset(&P, 0, sizeof P);
    size_t n = (size_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(n <= BCAP);
#else
    H_ASSUME(n <= (size_t)1 << 40);
#endif
    uint8_t* d = nd_alloc(BCAP, n); H_ASSUME(d != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < n) d[i] = v; }
#endif
    l_im = d; l_len = n; l_pos = 0; l_n = 0; l_fail = l_hit = l_started = 0; l_q = 0; l_name = NULL;
    uint16_t key = (uint16_t)ND();
#if FN == 1
    P.bytecode_len = 12345; P.string_count = 77; S = P;
    bool header = n >= 16 && d[0] == 'C' && d[1] == 'N' && d[2] == 'D' && d[3] == 'I' && d[4] == 'L' && d[5] == 1;
    uint32_t so = 0, bo = 0, sc = 0;
    if (n >= 16) { sc = le(d + 6, 2); so = le(d + 8, 4); bo = le(d + 12, 4); }
    bool offsets = header && so <= n && bo <= n;
    if (offsets) l_pos = so;
    REACH("precondition is satisfiable");
    cnd_error_t rc = cnd_program_load_il(&P, d, n);
    CK(T_LOAD, offsets || rc != CND_ERR_OK, "an image with a wrong header or offsets outside of it is refused");
#ifdef LOOP_load_strings
    if (offsets) CK(T_LOAD, (rc == CND_ERR_OK) == !l_fail && (rc != CND_ERR_OK || l_n == sc), "an image is accepted exactly if all strings of its table are terminated inside it");
#else
    if (offsets) {
        size_t p = so; uint32_t k = 0;
        for (; k < sc; k++) { while (p < n && d[p]) p++; if (p >= n) break; p++; }
        CK(T_LOAD, (rc == CND_ERR_OK) == (k == sc), "an image is accepted exactly if all strings of its table are terminated inside it");
    }
#endif
    if (rc == CND_ERR_OK) {
        CK(T_LOAD, P.string_table == (const char*)d + so && P.string_count == sc, "the program's strings are the image's");
        CK(T_LOAD, P.bytecode == d + bo && P.bytecode_len == n - bo, "the program's bytecode is the rest of the image from its offset");
        REACH("an image is accepted");
    } else CK(T_LOAD, P.string_table == S.string_table && P.string_count == S.string_count && P.bytecode == S.bytecode && P.bytecode_len == S.bytecode_len, "a refused image leaves the program unchanged");
    CK(T_LOAD, rc == CND_ERR_OK || rc == CND_ERR_OOB || rc == CND_ERR_INVALID_OP, "documented error codes");
#elif FN == 2 || FN == 3
    uint16_t count = (uint16_t)ND();
    bool none = ND() & 1;
    P.string_table = none ? NULL : (const char*)d; P.string_count = count; S = P;
    char nb[4] = { 'a', (char)ND(), (char)ND(), 0 };
    const char* name = (ND() & 1) ? nb : nb + 1;
    l_name = name;
#if !defined(LOOP_key_name) && !defined(LOOP_key_id)
    if (!none) { size_t p = 0; for (uint32_t k = 0; k < count; k++) { while (p < n && d[p]) p++; H_ASSUME(p < n); p++; } }
#endif
    REACH("precondition is satisfiable");
#if FN == 2
    const char* got = cnd_get_key_name(&P, key);
    if (none || key >= count) CK(T_LOAD, got == NULL, "no name for an unknown key");
    else {
#ifdef LOOP_key_name
        CK(T_LOAD, got != NULL && l_n == (key ? key - 1u : 0), "exactly the strings before the key's are stepped over");
        size_t p = (size_t)((const uint8_t*)got - d);
        if (key == 0) CK(T_LOAD, p == 0, "the first key's name is the first string");
        else { __CPROVER_assume(!(p >= 1 && p - 1 >= l_pos && p - 1 < l_q && d[p - 1] == 0)); CK(T_LOAD, p == l_q + 1, "the name is the string behind the last one stepped over"); }
        REACH("a name is found");
#else
        size_t p = 0; for (uint32_t k = 0; k < key; k++) { while (d[p]) p++; p++; }
        CK(T_LOAD, got == (const char*)d + p, "the name is the key's string");
#endif
    }
#else
    uint16_t got = cnd_get_key_id(&P, name);
    if (none) CK(T_LOAD, got == 0xFFFF, "no key without strings");
#ifdef LOOP_key_id
    else if (l_hit) CK(T_LOAD, got == l_n && got < count, "the key is the index of the first string equal to the name");
    else CK(T_LOAD, got == 0xFFFF && (count == 0 || l_n == count - 1u), "no key if no string of the table equals the name");
    if (l_hit) REACH("a key is found");
#else
    else {
        size_t p = 0; uint32_t k = 0; uint16_t want = 0xFFFF;
        for (; k < count && want == 0xFFFF; k++) {
            size_t e = p; while (d[e]) e++;
            size_t m = 0; while (name[m] && name[m] == (char)d[p + m]) m++;
            if (m == e - p && !name[m]) want = (uint16_t)k;
            p = e + 1;
        }
        CK(T_LOAD, got == want, "the key is the index of the first string equal to the name");
    }
#endif
#endif
    CK(T_LOAD, P.string_table == S.string_table && P.string_count == S.string_count, "lookups do not change the program");
#else
    static cnd_vm_ctx C;
    uint64_t w = ND();
    for (size_t i = 0; i < sizeof C; i++) ((uint8_t*)&C)[i] = (uint8_t)(w >> (8 * (i % 8)));
    cnd_program_load(&P, d, n);
    CK(T_LOAD, P.bytecode == d && P.bytecode_len == n && P.string_table == NULL && P.string_count == 0, "a raw program has the given bytecode and no strings");
    cnd_mode_t mode = (ND() & 1) ? CND_MODE_ENCODE : CND_MODE_DECODE;
    uint8_t* data = (uint8_t*)&w; size_t dl = key & 7;
    REACH("precondition is satisfiable");
    cnd_init(&C, mode, &P, data, dl, NULL, &S);
    CK(T_LOAD, C.mode == mode && C.program == &P && C.data_buffer == data && C.data_len == dl && C.io_callback == NULL && C.user_ptr == &S, "a new context refers to what it was given");
    CK(T_LOAD, C.ip == 0 && C.cursor == 0 && C.bit_offset == 0, "execution starts at the first instruction, byte and bit");
    CK(T_LOAD, C.endianness == CND_LE && C.loop_depth == 0 && C.expr_sp == 0 && C.trans_type == CND_TRANS_NONE && !C.is_next_optional, "a new context is little-endian with empty stacks and no pending modifiers: the invariant holds");
#endif
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
