/* Contracts of the compiler's building blocks in cnd_utils.c: the bytecode buffer (FN 1..4), the string
 * table (FN 5, prefixed names FN 8) and integer literals (FN 6, 7), for buffers, tables and literals of every size. Facts about all
 * bytes are proved at an arbitrary index (u_g); libc's realloc, memcpy, strlen and strncmp by contract. */
#include "concordia.h"
#include "nd.h"
#include <string.h>
enum { T_SEM = 1, T_MEM = 2 };
#ifndef TAGS
#define TAGS 3
#endif
#define OPC 0
#ifndef BCAP
#define BCAP 24
#endif
#ifdef __CPROVER__
#define H_ABSTRACT !defined(BOUNDED_INPUTS)
#endif
size_t u_g, u_x; /* arbitrary byte of the buffer; arbitrary string of the table */
char** u_tab; const char* u_name; char* u_sx; int u_len, u_cx; size_t u_lx; bool u_eqx;
const char *u_p; size_t u_pl; int u_pc; /* last string measured and compared */
const char* n_s; uint64_t n_v; int n_k;
uint64_t h_fold(uint64_t v, char c, int base);
#include "cnd_contracts.h"
#undef memcpy
#undef memchr
#undef strlen
#if defined(__CPROVER__) && !defined(BOUNDED_INPUTS)
void* h_realloc(void* p, size_t n); size_t h_strlen2(const char* s); int h_strncmp(const char* a, const char* b, size_t n); void* h_copy(void* d, const void* s, size_t n);
#define realloc h_realloc
#define strlen h_strlen2
#define strncmp h_strncmp
#define memcpy h_copy
#endif
#include "../compiler/cnd_utils.c"
#undef realloc
#undef strlen
#undef strncmp
#undef memcpy
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#else
void* h_memcpy_var(void* d, const void* s, size_t n) { return d; }
void* h_memchr(const void* s, int c, size_t n) { return 0; }
size_t h_strlen(const char* s) { return 0; }
double h_math1(int fn, double a) { return 0; }
double h_math2(int fn, double a, double b) { return 0; }
size_t nondet_size(void); int nondet_int(void);
#ifndef BOUNDED_INPUTS
size_t u_old; /* size of the object that is grown */
void* h_realloc(void* p, size_t n) { /* a larger object which starts with the old contents: at byte u_g (for tables: the 8 bytes of entry u_x) */
    __CPROVER_assert(n >= u_old && __CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_OBJECT_SIZE(p) == u_old, "contract: whole objects are grown");
    uint8_t* q = malloc(n);
    __CPROVER_assume(q != NULL);
#if FN == 5
    if (8 * u_x + 8 <= u_old) __CPROVER_assume(((char**)q)[u_x] == ((char**)p)[u_x]);
#else
    if (u_g < u_old) __CPROVER_assume(q[u_g] == ((uint8_t*)p)[u_g]);
#endif
    u_old = n;
    return q;
}
size_t u_src, u_dst; bool u_copied; /* byte u_g of the destination was copied */
void* h_copy(void* d, const void* s, size_t n) {
    __CPROVER_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "contract: memcpy copies between valid regions");
    size_t off = __CPROVER_POINTER_OFFSET(d);
    uint8_t old = 0;
    bool in = u_g >= off && u_g - off < n, other = u_g < __CPROVER_OBJECT_SIZE(d) && !in;
    if (other) old = *((uint8_t*)d - off + u_g);
    if (n) __CPROVER_havoc_slice(d, n);
    if (in) __CPROVER_assume(((uint8_t*)d)[u_g - off] == ((const uint8_t*)s)[u_g - off]);
    if (other) __CPROVER_assume(*((uint8_t*)d - off + u_g) == old);
    return d;
}
/* the string at u_sx has length u_lx and compares as u_cx with the name; others have any */
size_t h_strlen2(const char* s) { size_t n = nondet_size(); if (s == u_sx || FN == 8) n = u_lx; u_p = s; u_pl = n; return n; }
int h_strncmp(const char* a, const char* b, size_t n) {
    __CPROVER_assert(b == u_name && n == (size_t)u_len && a == u_p && u_pl == n, "contract: the whole name is compared with a string of its length");
    int r = nondet_int(); if (a == u_sx) r = u_cx;
    u_pc = r; return r;
}
int u_plen; const char* u_pre; uint16_t u_ret; bool u_added; StringTable* u_t;
uint16_t stub_strtab_add(StringTable* t, const char* s, int n) {
    size_t total = (size_t)u_plen + 1 + u_lx;
    __CPROVER_assert(t == u_t && !u_added, "contract: one name is added to the string table");
    if (total < 512) {
        __CPROVER_assert(n == (int)total && __CPROVER_r_ok(s, total), "contract: prefix, dot and name are added");
        if (u_g < total) __CPROVER_assert(s[u_g] == (u_g < (size_t)u_plen ? u_pre[u_g] : u_g == (size_t)u_plen ? '.' : u_sx[u_g - u_plen - 1]), "contract: the name is prefix, dot, name");
    } else __CPROVER_assert((u_sx == NULL || s == u_sx) && n == (int)u_lx, "contract: names that get too long keep their key's name");
    u_added = 1; u_ret = (uint16_t)nondet_int();
    return u_ret;
}
#endif
#endif

static uint64_t digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }
uint64_t h_fold(uint64_t v, char c, int base) { return base == 16 ? v * 16 + digit(c) : c >= '0' && c <= '9' ? v * 10 + (c - '0') : v; }

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
#ifdef BOUNDED_INPUTS
    const uint64_t LIM = BCAP;
#else
    const uint64_t LIM = (uint64_t)1 << 40;
#endif
#if FN <= 4
    Buffer B; size_t cap = (size_t)ND(), size = (size_t)ND(), len = (size_t)ND(); uint64_t val = ND(); u_g = (size_t)ND();
    H_ASSUME(cap >= 1 && cap <= LIM && size <= cap && len <= LIM && u_g <= 4 * LIM);
    uint8_t* d = malloc(cap); uint8_t* src = malloc(len ? len : 1); H_ASSUME(d && src);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t a = (uint8_t)ND(), b = (uint8_t)ND(); if (i < cap) d[i] = a; if (i < len) src[i] = b; }
#else
    u_old = cap;
#endif
    B.data = d; B.size = size; B.capacity = cap;
    uint8_t old = u_g < size ? d[u_g] : 0;
    size_t add = 0, at = size; uint8_t want[8];
    for (int i = 0; i < 8; i++) want[i] = (uint8_t)(val >> (8 * i));
    REACH("precondition is satisfiable");
#if FN == 1
    buf_append(&B, src, len); add = len;
#elif FN == 2
    uint8_t w = (uint8_t)ND(); H_ASSUME(w == 1 || w == 2 || w == 4 || w == 8); add = w;
    if (w == 1) buf_push(&B, (uint8_t)val); else if (w == 2) buf_push_u16(&B, (uint16_t)val); else if (w == 4) buf_push_u32(&B, (uint32_t)val); else buf_push_u64(&B, val);
#elif FN == 3
    uint8_t w = (uint8_t)ND(); at = (size_t)ND(); H_ASSUME(at <= LIM && (w == 1 || w == 2 || w == 4));
    if (w == 1) buf_write_u8_at(&B, at, (uint8_t)val); else if (w == 2) buf_write_u16_at(&B, at, (uint16_t)val); else buf_write_u32_at(&B, at, (uint32_t)val);
    bool fits = at <= size && size - at >= w;
    if (u_g < size) CK(T_SEM, B.data[u_g] == (fits && u_g >= at && u_g - at < w ? want[u_g - at] : old), "patching stores the little-endian value in exactly its bytes, or nothing if it lies outside");
#else
    Buffer N; buf_init(&N);
    CK(T_SEM, N.size == 0 && N.capacity >= 1 && N.data != NULL, "a new buffer is empty and has room");
    CK(T_SEM, buf_current_offset(&B) == size, "the current offset is the number of bytes emitted");
    add = 0;
#endif
    CK(T_SEM, B.size == size + add, "exactly the appended bytes are added");
    CK(T_SEM | T_MEM, B.size <= B.capacity, "the buffer has room for its contents");
#if FN != 3
    if (u_g < size) CK(T_SEM, B.data[u_g] == old, "what was emitted before stays as it was");
#if FN == 1
    else if (u_g < B.size) CK(T_SEM, B.data[u_g] == src[u_g - size], "the appended bytes follow in order");
#elif FN == 2
    else if (u_g < B.size) CK(T_SEM, B.data[u_g] == want[u_g - size], "the value follows in little-endian order");
#endif
#endif
#ifdef __CPROVER__
    CK(T_MEM, __CPROVER_OBJECT_SIZE(B.data) >= B.capacity, "the capacity is what is allocated");
#endif
#elif FN == 5
    StringTable T; size_t cap = (size_t)ND(), count = (size_t)ND(); u_x = (size_t)ND(); u_len = (int)ND(); u_g = (size_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(cap <= 6 && u_len >= 0 && u_len <= 3 && u_g <= 4);
#else
    H_ASSUME(cap <= (size_t)1 << 32 && u_x <= LIM && u_len >= 0 && u_len < 0x7FFFFFFF && u_g <= LIM);
#endif
    H_ASSUME(count <= cap && count < 65536); /* indices are 16 bits wide: larger tables are outside of the contract */
    T.strings = malloc(cap * sizeof(char*)); T.count = count; T.capacity = cap;
    char* name = malloc((size_t)u_len + 1); H_ASSUME(T.strings && name);
#ifdef BOUNDED_INPUTS
    for (int i = 0; i < 3; i++) { char c = (char)ND(); H_ASSUME(c); if (i < u_len) name[i] = c; } /* as names of tokens */
    for (size_t k = 0; k < 6; k++) {
        char* q = malloc(4); for (int i = 0; i < 3; i++) q[i] = (char)ND(); q[3] = 0;
        if (k < count) T.strings[k] = q;
    }
#else
    u_old = cap * sizeof(char*);
    u_sx = u_x < count ? T.strings[u_x] : NULL; u_lx = nondet_size(); u_cx = nondet_int();
    u_eqx = u_lx == (size_t)u_len && u_cx == 0;
#endif
    char* keep = u_x < count ? T.strings[u_x] : NULL; char** tab = T.strings; u_name = name; u_p = NULL;
    char nm = u_g < (size_t)u_len ? name[u_g] : 0;
    REACH("precondition is satisfiable");
    uint16_t id = strtab_add(&T, name, u_len);
    bool hit = T.count == count;
    CK(T_SEM | T_MEM, T.count <= T.capacity && T.count - count <= 1 && id < T.count, "the index is that of a string of the table, which grows by at most one");
    if (u_x < count) CK(T_SEM, T.strings[u_x] == keep, "the strings of the table keep their indices");
    if (hit) {
        CK(T_SEM, T.strings == tab, "nothing changes if the string is there");
#ifdef BOUNDED_INPUTS
        CK(T_SEM, strlen(T.strings[id]) == (size_t)u_len && memcmp(T.strings[id], name, u_len) == 0, "the index is that of an equal string");
#else
        CK(T_SEM, u_p == T.strings[id] && u_pl == (size_t)u_len && u_pc == 0, "the index is that of an equal string");
#endif
        REACH("the string is there");
    } else {
        CK(T_SEM, id == count, "a new string gets the next index");
        CK(T_SEM, T.strings[id][u_len] == 0 && (u_g >= (size_t)u_len || T.strings[id][u_g] == nm), "a new string is a terminated copy of the name");
        REACH("the string is new");
    }
#ifdef BOUNDED_INPUTS
    if (u_x < count && strlen(keep) == (size_t)u_len && memcmp(keep, name, u_len) == 0)
#else
    if (u_x < count && u_eqx)
#endif
        CK(T_SEM, hit && id <= u_x, "a string that is there is found, at its first index");
#ifdef __CPROVER__
    CK(T_MEM, __CPROVER_OBJECT_SIZE(T.strings) >= T.capacity * sizeof(char*), "the capacity is what is allocated");
#endif
#elif FN == 8
    uint16_t key = (uint16_t)ND(); uint32_t count = (uint32_t)ND(), plen = (uint32_t)ND(); u_g = (size_t)ND();
    StringTable T; T.count = count; T.capacity = (size_t)count + 2;
#ifdef BOUNDED_INPUTS
    H_ASSUME(count <= 3 && plen <= 3);
    char* pre = malloc(4); for (int i = 0; i < 4; i++) pre[i] = i < 3 ? 'p' + i : 0;
    T.strings = malloc(T.capacity * sizeof(char*));
    for (uint32_t i = 0; i < 3; i++) if (i < count) { T.strings[i] = malloc(3); T.strings[i][0] = 'a' + i; T.strings[i][1] = i ? '.' : 0; T.strings[i][2] = 0; }
    uint16_t id = prefixed_key(key, pre, (int)plen, &T);
    const char* nm = key < count ? T.strings[key] : ""; char want[16]; memcpy(want, pre, plen); want[plen] = '.'; strcpy(want + plen + 1, nm);
    CK(T_SEM, id < T.count && strcmp(T.strings[id], want) == 0, "the key is that of prefix, dot and name");
#else
    H_ASSUME(count <= 65536 && plen <= 1 << 29 && u_g < 512);
    T.strings = malloc(T.capacity * sizeof(char*)); char* pre = malloc((size_t)plen + 1); H_ASSUME(T.strings && pre);
    uint32_t l = (uint32_t)ND(); H_ASSUME(l <= 1 << 29);
    char* own = malloc((size_t)l + 1); H_ASSUME(own);
    u_len = 0; u_plen = (int)plen; u_pre = pre; u_added = 0; u_t = &T; u_lx = l; u_sx = own;
    if (key < count) T.strings[key] = own;
    bool known = key < count;
    if (!known) { H_ASSUME(l == 0); u_sx = NULL; } /* an unknown key has the empty name */
    REACH("precondition is satisfiable");
    uint16_t id = prefixed_key(key, pre, (int)plen, &T);
    CK(T_SEM, u_added && id == u_ret, "the key is that of prefix, dot and name");
    if (known && (size_t)plen + 1 + l < 512) REACH("a name is prefixed");
#endif
#else
    uint32_t len32 = (uint32_t)ND();
    H_ASSUME(len32 <= 0x7FFFFFFE && len32 <= LIM);
    int len = (int)len32;
    char* s = malloc(len ? len : 1); H_ASSUME(s);
#ifdef BOUNDED_INPUTS
    for (int i = 0; i < BCAP; i++) { char c = (char)ND(); if (i < len) s[i] = c; }
#endif
    int b = 0; bool neg = 0, hex;
#if FN == 7
    if (len > 0 && (s[0] == '-' || s[0] == '+')) { b = 1; neg = s[0] == '-'; }
#endif
    hex = len - b > 2 && s[b] == '0' && (s[b + 1] == 'x' || s[b + 1] == 'X');
    n_s = s; n_k = hex ? b + 2 : b; n_v = 0;
    REACH("precondition is satisfiable");
#if FN == 6
    uint32_t got = parse_number_u32(s, len);
#else
    int64_t got = parse_number_i64(s, len);
#endif
#if defined(LOOP_dec32) || defined(LOOP_dec64)
    CK(T_SEM, n_k == len, "every character of the literal is used");
#else
    for (; n_k < len; n_k++) n_v = h_fold(n_v, s[n_k], hex ? 16 : 10);
#endif
    if (hex) REACH("a hexadecimal literal");
    if (!hex) REACH("a decimal literal");
#if FN == 6
    CK(T_SEM, got == (uint32_t)n_v, "the value of the digits in base 16 behind 0x and in base 10 otherwise, modulo 2^32");
#else
    CK(T_SEM, (uint64_t)got == (neg ? 0 - n_v : n_v), "the signed value of the digits in base 16 behind 0x and in base 10 otherwise, modulo 2^64");
#endif
#endif
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
