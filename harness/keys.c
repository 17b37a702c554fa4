/* Contracts of the two walks that rewrite key operands: walk_keys in cndc.c (FN 1: marks the keys used,
 * FN 2: renumbers them) and buf_append_with_prefix in cnd_utils.c (FN 3), for bytecode of every size. Facts about
 * all bytes are proved at an arbitrary index (k_g); k_o is a ghost copy of the bytecode before the call.
 * FN 4: optimize_strings in cndc.c, from the contracts of walk_keys and strtab_add.
 * Instruction lengths and tables: the contracts of cnd_il_instr_len and cnd_il_switch_table (proved under C16). */
#include "concordia.h"
#include "nd.h"
#include <string.h>
enum { T_SEM = 1, T_MEM = 2 };
#ifndef TAGS
#define TAGS 3
#endif
#define OPC 0
#ifndef BCAP
#define BCAP 20
#endif
uint8_t *k_bc, *k_o; size_t k_len, k_g, k_prev, k_n, k_sc, k_out; bool k_called, k_intab, k_fail, k_stop, k_used; uint8_t k_exp, k_got; uint16_t k_u;
int k_nth, k_which; uint16_t k_key, k_gkey; uint8_t* k_tab; const char* k_prefix; const uint16_t* k_map;
#include "cnd_contracts.h"
#undef memcpy
#undef memchr
#undef strlen
#include "cnd_il_layout.h"
#if defined(__CPROVER__) && !defined(BOUNDED_INPUTS)
#define ABSTRACT
cnd_error_t stub_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out);
cnd_error_t stub_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end);
void* h_calloc(size_t n, size_t m); void* h_memset(void* p, int c, size_t n);
#define cnd_il_instr_len stub_instr_len
#define cnd_il_switch_table stub_switch_table
#define calloc h_calloc
#define memset h_memset
#endif
#if FN == 4 && defined(ABSTRACT)
void h_free(void* p);
#define free h_free
#define strlen h_strlen
#endif
#if FN == 3
#include "cnd_utils.c"
#else
#include "cndc.c"
#ifndef ABSTRACT
#include "cnd_utils.c"
#endif
#endif
#undef cnd_il_instr_len
#undef cnd_il_switch_table
#undef calloc
#undef memset
#undef free
#undef strlen
Parser* o_p; char** o_strings; uint8_t* o_used; uint16_t o_ret; size_t o_count, o_freed; char* o_su; int o_walks, o_rc; bool o_interned; void* o_new;
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
/* the opcodes with a key behind them, and how many (SPEC.md, Instruction Set) */
static int keys_of(uint8_t op) {
    if (op == OP_ARR_DYNAMIC) return 2;
    return op == OP_META_NAME || op == OP_ENTER_STRUCT || (op >= OP_IO_U8 && op <= OP_IO_BOOL) || (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
        (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) || (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) || op == OP_ARR_EOF || op == OP_RAW_BYTES ||
        op == OP_CONST_CHECK || op == OP_SWITCH || op == OP_SWITCH_TABLE || op == OP_LOAD_CTX || op == OP_STORE_CTX;
}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#else
void* h_memcpy_var(void* d, const void* s, size_t n) { return d; }
void* h_memchr(const void* s, int c, size_t n) { return 0; }
#if FN == 4
size_t h_strlen(const char* s) { size_t nondet_sz(void); size_t r = nondet_sz(); __CPROVER_assume(r < 0x7FFFFFFF); return s == o_su ? 5 : r; }
#else
size_t h_strlen(const char* s) { return 0; }
#endif
double h_math1(int fn, double a) { return 0; }
double h_math2(int fn, double a, double b) { return 0; }
size_t nondet_size(void); int nondet_int(void); uint16_t nondet_u16(void);
#endif
#ifdef ABSTRACT
#if FN == 4
/* walk_keys: marks exactly the strings used, or fails; the second time renumbers (its own contract: FN 1, FN 2) */
int stub_walk_keys(Buffer* b, size_t n, uint8_t* used, const uint16_t* map) {
    __CPROVER_assert(b == &o_p->global_bc && n == o_count, "contract: the whole program is walked with the whole string table");
    o_walks++;
    if (o_walks == 1) {
        __CPROVER_assert(map == NULL && used != NULL && used[k_u] == 0, "contract: first the strings used are marked, none before");
        o_used = used; __CPROVER_havoc_object(used); __CPROVER_assume(used[k_u] == k_used);
        return o_rc;
    }
    __CPROVER_assert(o_walks == 2 && o_rc && used == NULL && map != NULL, "contract: then keys are renumbered, once");
    __CPROVER_assert(!k_used || (o_interned && map[k_u] == o_ret), "contract: a used string's keys become its index in the new table");
    return 1;
}
/* strtab_add (C19): the same index for the same string */
uint16_t stub_add(StringTable* t, const char* s, int n) {
    __CPROVER_assert(t != &o_p->strtab && (o_new == NULL || (void*)t == o_new), "contract: used strings go to the new table");
    o_new = t;
    uint16_t r = nondet_u16();
    if (s == o_su) { __CPROVER_assert(n == 5, "contract: the whole string is added"); o_interned = 1; r = o_ret; }
    return r;
}
void stub_strtab_init(StringTable* t) { t->strings = NULL; t->count = 0; t->capacity = 7; }
void h_free(void* p) { if (p == o_su) o_freed = 1; }
#endif
void* h_calloc(size_t n, size_t m) {
#if FN == 4
    __CPROVER_assert(m == 1 && n == o_count, "contract: one mark per string");
    uint8_t* q = malloc(n); __CPROVER_assume(q != NULL && q[k_u] == 0);
    return q;
#endif
    __CPROVER_assert(m == 1 && n == k_len + 1, "contract: one mark per byte");
    k_tab = malloc(n); __CPROVER_assume(k_tab != NULL && k_tab[k_g] == 0);
    return k_tab;
}
void* h_memset(void* p, int c, size_t n) {
    size_t off = __CPROVER_POINTER_OFFSET(p);
    __CPROVER_assert(c == 1 && __CPROVER_w_ok(p, n), "contract: memset marks a region of the table map");
    uint8_t v = k_tab[k_g];
    __CPROVER_havoc_slice(p, n);
    __CPROVER_assume(k_tab[k_g] == (k_g >= off && k_g - off < n ? 1 : v));
    return p;
}
/* The walk looks at an instruction: the ghost records what must become of byte k_g if it belongs to it. That the bytes
 * ahead are still the original ones is proved at k_g (any byte) and used here for the instruction's operands. */
cnd_error_t stub_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out) {
    __CPROVER_assert(bc == k_bc && len == k_len && ip < len && ip == k_prev, "contract: precondition of cnd_il_instr_len");
    __CPROVER_assert(ip != k_g || !k_intab, "contract: the inside of a switch table is not taken for an instruction");
    k_called = 1; k_nth = 0; k_which = -1;
    int rc = nondet_int();
    if (rc != CND_ERR_OK) { k_fail = 1; return rc; }
    size_t n = nondet_size();
    for (size_t j = 0; j < 5; j++) if (j < len - ip) __CPROVER_assume(bc[ip + j] == k_o[ip + j]);
    int ks = keys_of(k_o[ip]);
    __CPROVER_assume(n >= 1 && n <= len - ip && n >= 1 + 2 * (size_t)ks && ((k_o[ip] != OP_SWITCH && k_o[ip] != OP_SWITCH_TABLE) || n == 7));
    k_n = n; *out = n;
    for (int k = 0; k < 2; k++) if (k < ks) {
        uint16_t id = (uint16_t)(k_o[ip + 1 + 2 * k] | k_o[ip + 2 + 2 * k] << 8);
        if (id == k_u) k_used = 1;
        if (k_g >= ip + 1 + 2 * k && k_g <= ip + 2 + 2 * k) {
            k_which = k; k_key = id;
#if FN == 2
            if (id < k_sc) k_exp = (uint8_t)(k_map[id] >> (k_g == ip + 1 + 2 * k ? 0 : 8));
#endif
        }
    }
    return CND_ERR_OK;
}
cnd_error_t stub_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end) {
    __CPROVER_assert(bc == k_bc && len == k_len && ip == k_prev && k_called && len - ip >= 7 && (bc[ip] == OP_SWITCH || bc[ip] == OP_SWITCH_TABLE), "contract: precondition of cnd_il_switch_table");
    int rc = nondet_int();
#if FN == 3
    if (rc != CND_ERR_OK) return rc;
#else
    if (rc != CND_ERR_OK) { k_fail = 1; return rc; }
#endif
    size_t s = nondet_size(), e = nondet_size();
    __CPROVER_assume(s >= ip + 7 && s < e && e <= len);
    if (k_g >= s && k_g < e) k_intab = 1;
    *start = s; *end = e;
    return CND_ERR_OK;
}
#if FN == 3 /* the output: k_out bytes so far; k_got is byte k_g of it */
void stub_append(Buffer* b, const uint8_t* data, size_t n) {
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(data, n), "contract: valid bytes are appended");
    if (k_g >= k_out && k_g - k_out < n) k_got = data[k_g - k_out];
    k_out += n;
}
void stub_push(Buffer* b, uint8_t v) { if (k_out == k_g) k_got = v; k_out++; }
void stub_push_u16(Buffer* b, uint16_t v) { if (k_out == k_g) k_got = (uint8_t)v; if (k_out + 1 == k_g) k_got = (uint8_t)(v >> 8); k_out += 2; }
uint16_t stub_prefixed(uint16_t old, const char* prefix, int plen, StringTable* t) {
    uint16_t r = nondet_u16();
    __CPROVER_assert(prefix == k_prefix, "contract: the prefix is the struct's");
    if (k_nth == k_which) { __CPROVER_assert(old == k_key, "contract: the key of the instruction is prefixed"); k_exp = (uint8_t)(r >> (k_g == k_prev + 1 + 2 * k_which ? 0 : 8)); }
    k_nth++;
    return r;
}
#endif
#else
#define NOSTUBS
#endif

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    size_t n = (size_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(n <= BCAP);
#else
    H_ASSUME(n <= 0x7FFFFFFE);
#endif
    uint8_t* d = nd_alloc(BCAP, n); uint8_t* o = malloc(n + 1); H_ASSUME(d != NULL && o != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < n) d[i] = o[i] = v; }
#endif
    k_bc = d; k_o = o; k_len = n; k_g = (size_t)ND(); H_ASSUME(n == 0 || k_g < n); if (n == 0) k_g = 0;
    if (n) H_ASSUME(d[k_g] == o[k_g]);
    k_exp = n ? o[k_g] : 0; k_prev = (size_t)-1; k_called = k_intab = k_fail = k_stop = k_used = 0; k_out = 0; k_got = 0; k_nth = 0; k_which = -1; k_n = 0;
    uint32_t sc = (uint32_t)ND(); k_u = (uint16_t)ND();
    H_ASSUME(sc <= 65536 && k_u < sc); k_sc = sc;
#ifdef BOUNDED_INPUTS
    H_ASSUME(sc <= 4);
    const size_t scap = 4;
#else
    const size_t scap = sc;
#endif
    Buffer B; B.data = d; B.size = n; B.capacity = n;
#if FN == 4
    static Parser P;
#ifdef ABSTRACT
    o_su = malloc(6); char** ss = malloc(scap * sizeof(char*));
    H_ASSUME(ss && o_su && ss[k_u] == o_su);
    P.global_bc = B; P.strtab.strings = ss; P.strtab.count = sc; P.strtab.capacity = sc;
    o_p = &P; o_strings = ss; o_count = sc; o_walks = 0; o_rc = (int)(ND() & 1); o_ret = nondet_u16(); k_used = ND() & 1; o_interned = 0; o_freed = 0; o_new = NULL;
    REACH("precondition is satisfiable");
    optimize_strings(&P);
    if (!o_rc) { CK(T_SEM, o_walks == 1 && P.strtab.strings == ss && P.strtab.count == sc && !o_freed, "code that cannot be walked keeps its keys and strings"); REACH("the walk fails"); }
    else {
        CK(T_SEM, o_walks == 2 && P.strtab.strings == NULL && P.strtab.capacity == 7, "the new table replaces the old one once the keys are renumbered");
        CK(T_SEM, o_interned || !k_used, "the new table holds the strings used");
        REACH("the table is rebuilt");
    }
#else
    static char* nm[4] = { "a", "bb", "a.c", "d" };
    const char* before[BCAP] = {0};
    P.global_bc = B; strtab_init(&P.strtab);
    for (uint32_t i = 0; i < sc; i++) strtab_add(&P.strtab, nm[i], (int)strlen(nm[i]));
    uint16_t at[4] = {0};
    bool ok = walk_keys(&B, sc, (uint8_t[4]){0}, NULL);
    optimize_strings(&P);
    size_t p = 0; uint8_t t[BCAP + 1] = {0};
    while (p < n) { /* the name behind every key stays the same */
        size_t l, s, e;
        if (t[p]) { p++; continue; }
        if (cnd_il_instr_len(o, n, p, &l) != CND_ERR_OK) break;
        if (o[p] == OP_SWITCH || o[p] == OP_SWITCH_TABLE) { if (cnd_il_switch_table(o, n, p, &s, &e) != CND_ERR_OK) break; for (; s < e; s++) t[s] = 1; }
        for (int k = 0; k < keys_of(o[p]); k++) {
            uint16_t id = (uint16_t)(o[p + 1 + 2 * k] | o[p + 2 + 2 * k] << 8), nid = (uint16_t)(d[p + 1 + 2 * k] | d[p + 2 + 2 * k] << 8);
            if (id < sc && ok) CK(T_SEM, nid < P.strtab.count && strcmp(P.strtab.strings[nid], nm[id]) == 0, "a used string's keys become its index in the new table");
            if (id < sc && !ok) CK(T_SEM, nid == id, "code that cannot be walked keeps its keys and strings");
        }
        p += l;
    }
#endif
#elif FN != 3
    uint8_t* used = malloc(scap); uint16_t* map = malloc(2 * scap); H_ASSUME(used && map); k_map = map;
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < 4; i++) { map[i] = (uint16_t)ND(); used[i] = 0; }
#endif
    H_ASSUME(used[k_u] == 0);
    REACH("precondition is satisfiable");
    int rc = walk_keys(&B, sc, FN == 1 ? used : NULL, FN == 1 ? NULL : map);
#if defined(ABSTRACT)
    CK(T_SEM, (rc != 0) == !k_fail, "the walk succeeds exactly if every instruction and table could be stepped over");
#else /* reference walk */
    {
        uint8_t t[BCAP + 1] = {0}; size_t p = 0;
        while (p < n) {
            size_t l, s, e;
            if (t[p]) { p++; continue; }
            if (cnd_il_instr_len(o, n, p, &l) != CND_ERR_OK) { k_fail = 1; break; }
            if (o[p] == OP_SWITCH || o[p] == OP_SWITCH_TABLE) { if (cnd_il_switch_table(o, n, p, &s, &e) != CND_ERR_OK) { k_fail = 1; break; } for (; s < e; s++) t[s] = 1; }
            for (int k = 0; k < keys_of(o[p]); k++) {
                uint16_t id = (uint16_t)(o[p + 1 + 2 * k] | o[p + 2 + 2 * k] << 8);
                if (id == k_u) k_used = 1;
                if (FN == 2 && id < sc) { if (k_g == p + 1 + 2 * k) k_exp = (uint8_t)map[id]; if (k_g == p + 2 + 2 * k) k_exp = (uint8_t)(map[id] >> 8); }
            }
            p += l;
        }
    }
    CK(T_SEM, (rc != 0) == !k_fail, "the walk succeeds exactly if every instruction and table could be stepped over");
#endif
    if (!k_fail) {
        REACH("the walk reaches the end");
        if (n) CK(T_SEM, d[k_g] == k_exp, "exactly the key operands are renumbered, by the map; every other byte stays");
#if FN == 1
        CK(T_SEM, !!used[k_u] == k_used, "a string is marked exactly if an instruction uses it");
#endif
    }
    CK(T_SEM, B.data == d && B.size == n, "the code keeps its size");
#else
    char pre[4] = { 'p', 'q', 0, 0 }; k_prefix = pre;
    Buffer O; StringTable T; static char* strs[8] = { "a", "b", "cc", "d" };
    T.strings = strs; T.count = 4; T.capacity = 8;
    REACH("precondition is satisfiable");
#ifdef ABSTRACT
    O.data = NULL; O.size = O.capacity = 0;
    buf_append_with_prefix(&O, d, n, pre, 2, &T);
    CK(T_SEM, k_out == n, "the copy has the size of the original");
    if (n) CK(T_SEM, k_got == k_exp, "exactly the key operands are replaced, by the prefixed names' keys; every other byte is copied");
#else
    char* dyn[4]; T.strings = malloc(8 * sizeof(char*)); for (int i = 0; i < 4; i++) T.strings[i] = strs[i];
    O.data = malloc(64); O.size = 0; O.capacity = 64; k_out = 0;
    buf_append_with_prefix(&O, d, n, pre, 2, &T);
    {
        uint8_t t[BCAP + 1] = {0}; size_t p = 0;
        while (p < n) {
            size_t l, s, e;
            if (t[p]) { p++; continue; }
            if (cnd_il_instr_len(o, n, p, &l) != CND_ERR_OK) break;
            if ((o[p] == OP_SWITCH || o[p] == OP_SWITCH_TABLE) && cnd_il_switch_table(o, n, p, &s, &e) == CND_ERR_OK) for (; s < e; s++) t[s] = 1;
            for (int k = 0; k < keys_of(o[p]); k++) {
                uint16_t id = prefixed_key((uint16_t)(o[p + 1 + 2 * k] | o[p + 2 + 2 * k] << 8), pre, 2, &T);
                if (k_g == p + 1 + 2 * k) k_exp = (uint8_t)id; if (k_g == p + 2 + 2 * k) k_exp = (uint8_t)(id >> 8);
            }
            p += l;
        }
    }
    CK(T_SEM, O.size == n, "the copy has the size of the original");
    if (n) CK(T_SEM, O.data[k_g] == k_exp, "exactly the key operands are replaced, by the prefixed names' keys; every other byte is copied");
#endif
    if (n) CK(T_SEM, d[k_g] == o[k_g], "the original stays as it is");
#endif
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
