/* Contracts of read_bits and write_bits (vm_internal.h), for every buffer, cursor, bit offset,
 * byte order, value and bit count (0..64 for reading, 0..255 for writing; the range N0..N1 and the
 * byte order of a job are one case of a complete split). The loops carry invariants (loops.h). */
#include "concordia.h"
#include "nd.h"
enum { T_BITS = 1 };
#ifndef TAGS
#define TAGS T_BITS
#endif
#ifndef BCAP
#define BCAP 34
#endif
#define OPC 0
static cnd_vm_ctx C, S;
static uint8_t* D; static size_t DL;
unsigned g_gb, g_q, g_bo; size_t g_c0, g_gi, g_pb; int g_bit; uint8_t *g_d, g_old;
#define h_bit(byte, pos) (((byte) >> (S.endianness == CND_LE ? (pos) : 7 - (pos))) & 1)
#include "vm_internal.h"
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#endif

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    unsigned n = (unsigned)(ND() & 0xFF);
    g_gb = (unsigned)(ND() & 0xFF);
    uint64_t val = ND();
    DL = (size_t)ND(); g_gi = (size_t)ND(); g_q = (unsigned)(ND() & 7);
#ifdef BOUNDED_INPUTS
    H_ASSUME(DL <= BCAP);
#else
    H_ASSUME(DL <= (size_t)1 << 40);
#endif
    D = nd_alloc(BCAP, DL); H_ASSUME(D != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < BCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < DL) D[i] = v; }
#endif
    C.data_buffer = D; C.data_len = DL; C.cursor = (size_t)ND(); C.endianness = (ND() & 1) ? CND_BE : CND_LE;
    C.mode = (ND() & 1) ? CND_MODE_DECODE : CND_MODE_ENCODE;
    C.bit_offset = (uint8_t)(ND() & 7);
#ifdef ENDIAN
    H_ASSUME(C.endianness == (ENDIAN)); C.endianness = (ENDIAN);
#endif
    H_ASSUME(C.cursor <= DL && n >= N0 && n <= N1);
    size_t bytes = ((size_t)C.bit_offset + n + 7) / 8;
    H_ASSUME(bytes <= DL - C.cursor);
    H_ASSUME(!(C.bit_offset != 0 && C.cursor == DL));
    S = C; g_d = D; g_c0 = C.cursor; g_bo = C.bit_offset;
    g_old = g_gi < DL ? D[g_gi] : 0;
    unsigned p = g_bo + g_gb;
    g_pb = g_gb < n ? g_c0 + p / 8 : g_c0;
    REACH("precondition is satisfiable");
#ifdef WRITE
    if (g_gb < n) { unsigned w = S.endianness == CND_LE ? g_gb : n - 1 - g_gb; g_bit = w < 64 ? (int)((val >> w) & 1) : 0; }
    write_bits(&C, val, (uint8_t)n);
    if (g_gb < n) CK(T_BITS, h_bit(D[g_pb], p % 8) == g_bit, "write_bits stores every bit at its position");
    if (g_gi < DL && !(g_gi >= g_c0 && (g_gi - g_c0) * 8 + g_q >= g_bo && (g_gi - g_c0) * 8 + g_q < (size_t)g_bo + n))
        CK(T_BITS, h_bit(D[g_gi], g_q) == h_bit(g_old, g_q), "write_bits changes no bit outside the field");
#else
    g_bit = g_gb < n ? h_bit(D[g_pb], p % 8) : 0;
    uint64_t v = read_bits(&C, (uint8_t)n);
    if (g_gb < n) CK(T_BITS, (int)((S.endianness == CND_LE ? v >> g_gb : v >> (n - 1 - g_gb)) & 1) == g_bit, "read_bits returns every stored bit");
    if (n < 64) CK(T_BITS, v >> n == 0, "read_bits returns no extra bits");
    CK(T_BITS, g_gi >= DL || D[g_gi] == g_old, "read_bits changes no data");
#endif
    CK(T_BITS, C.cursor == S.cursor + (g_bo + n) / 8 && C.bit_offset == (g_bo + n) % 8, "the bit position advances by exactly the count");
    CK(T_BITS, C.data_buffer == D && C.data_len == DL && C.endianness == S.endianness && C.mode == S.mode, "nothing else in the context changes");
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
