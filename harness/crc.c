/* Contract of calc_crc (vm_exec.c): the Rocksoft CRC of data[0..len) for every length, content and
 * parameter set (width 16 and 32). Both loops carry invariants over a ghost register (loops.h). */
#include "concordia.h"
#include "nd.h"
enum { T_CRC = 1 };
#ifndef TAGS
#define TAGS T_CRC
#endif
#define OPC 0
#ifndef DCAP
#define DCAP 3
#endif
uint32_t h_ref, h_poly; size_t h_n, h_len; const uint8_t* h_data; int h_width, h_refin;
#include "vm_exec.c"
#undef memcpy
#undef memchr
#undef strlen
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#else
void* h_memcpy_var(void* d, const void* s, size_t n) { return d; }
void* h_memchr(const void* s, int c, size_t n) { return 0; }
size_t h_strlen(const char* s) { return 0; }
double h_math1(int fn, double a) { return 0; }
double h_math2(int fn, double a, double b) { return 0; }
#endif

uint32_t h_crc_step(uint32_t r, uint8_t byte) { /* Rocksoft model, bit by bit */
    uint32_t top = h_width == 32 ? 0x80000000u : 0x8000u, mask = h_width == 32 ? 0xFFFFFFFFu : 0xFFFFu;
    for (int b = 0; b < 8; b++) {
        int in = (byte >> (h_refin ? b : 7 - b)) & 1;
        bool fb = ((r & top) != 0) != (in != 0);
        r = (r << 1) & mask;
        if (fb) r ^= h_poly & mask;
    }
    return r;
}

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    h_len = (size_t)ND();
#ifdef BOUNDED_INPUTS
    H_ASSUME(h_len <= DCAP);
#else
    H_ASSUME(h_len <= (size_t)1 << 40);
#endif
    uint8_t* d = nd_alloc(DCAP, h_len); H_ASSUME(d != NULL);
#ifdef BOUNDED_INPUTS
    for (size_t i = 0; i < DCAP; i++) { uint8_t v = (uint8_t)ND(); if (i < h_len) d[i] = v; }
#endif
    h_data = d;
    uint32_t init = (uint32_t)ND(), xorout = (uint32_t)ND(); uint8_t flags = (uint8_t)ND();
    h_poly = (uint32_t)ND();
    h_width = WIDTH;
    if (WIDTH == 16) { h_poly &= 0xFFFF; init &= 0xFFFF; xorout &= 0xFFFF; }
    h_refin = flags & 1; h_ref = init; h_n = 0;
    REACH("precondition is satisfiable");
    uint32_t got = calc_crc(d, h_len, h_poly, init, xorout, flags, WIDTH);
#if defined(LOOP_crc) && defined(__CPROVER__)
    CK(T_CRC, h_n == h_len, "every byte enters the checksum once, in order");
#else
    for (size_t i = 0; i < h_len; i++) h_ref = h_crc_step(h_ref, d[i]);
#endif
    uint32_t want = h_ref;
    if (flags & 2) { want = 0; for (int b = 0; b < WIDTH; b++) if (h_ref & ((uint32_t)1 << b)) want |= (uint32_t)1 << (WIDTH - 1 - b); }
    want = (want ^ xorout) & (WIDTH == 32 ? 0xFFFFFFFFu : 0xFFFFu);
    CK(T_CRC, got == want, "calc_crc is the Rocksoft CRC of the bytes");
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
