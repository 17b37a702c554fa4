/* Contracts of vm_math_poly_eval/_solve and vm_math_spline_eval/_solve (vm_exec.c), for every number
 * of coefficients or points, every content and argument. FN selects the function. The loops carry
 * invariants over ghost registers advanced in lockstep (loops.h). */
#include "concordia.h"
#include "nd.h"
enum { T_TRANS = 1, T_MEM = 2 };
#ifndef TAGS
#define TAGS T_TRANS
#endif
#define OPC 0
#ifndef CCAP
#define CCAP 4 /* coefficients or points in bounded mode */
#endif
#define POLY_EVAL 1
#define POLY_SOLVE 2
#define SPLINE_EVAL 3
#define SPLINE_SOLVE 4
const uint8_t* m_co; int m_n, m_k, m_gx; double m_y, m_t, m_c0, m_zero; uint64_t m_bx, m_by, m_bdy; int m_has;
#include "vm_exec.c"
#undef memcpy
#undef memchr
#undef strlen
int h_steps; void h_boundary(cnd_vm_ctx* ctx, const uint8_t* pc) {}
#ifndef __CPROVER__
void h_assume_failed(void) { printf("INCONCLUSIVE assumption not met\n"); exit(77); }
#else
void* h_memcpy_var(void* d, const void* s, size_t n) { return d; }
void* h_memchr(const void* s, int c, size_t n) { return 0; }
size_t h_strlen(const char* s) { return 0; }
double h_math1(int fn, double a) { return 0; }
double h_math2(int fn, double a, double b) { return 0; }
#endif

static uint64_t bits_of(double v) { union { double d; uint64_t u; } w; w.d = v; return w.u; }
static bool same(double a, double b) { return bits_of(a) == bits_of(b) || a == b || (a != a && b != b); }
double h_coef(int i) { union { double d; struct h8 { uint8_t b[8]; } u; } w; w.u = *(const struct h8*)(m_co + (size_t)i * 8); return w.d; }
/* which: the coordinate that has to be enclosed (0: x, 1: y) */
static bool h_encloses(int i, double v, int y) {
    double a = h_coef(2 * i + y), b = h_coef(2 * i + 2 + y);
    return (v >= a && v <= b) || (y && v <= a && v >= b);
}
static double on_segment(int i, double v, int y) { /* the point of the line through points i and i+1 at coordinate v */
    double a0 = h_coef(2 * i + y), b0 = h_coef(2 * i + 1 - y), a1 = h_coef(2 * i + 2 + y), b1 = h_coef(2 * i + 3 - y);
    return a1 == a0 ? b0 : b0 + (v - a0) * (b1 - b0) / (a1 - a0);
}
static double val_of(uint64_t u) { union { double d; uint64_t u; } w; w.u = u; return w.d; }
static bool close_enough(double y, double t) { double diff = y - t; return diff > -0.001 && diff < 0.001; }

void h_newton_step(bool first, double at) { /* one more coefficient; first: it starts a Newton step, at the given argument */
    double x = val_of(m_bx), y = val_of(m_by), dy = val_of(m_bdy);
    if (first) {
#ifdef __CPROVER__
        double want = m_k == 0 ? 0 : x - (y - m_t) / dy;
        __CPROVER_assert(m_k == 0 || (!close_enough(y, m_t) && dy != 0), "contract: Newton's iteration stops at the solution or an extremum");
        __CPROVER_assert(at == want || (at != at && want != want), "contract: each Newton step follows the tangent");
#endif
        x = at;
        m_k++; m_has = 0; y = m_c0; dy = 0;
    }
    dy = dy * x + y;
    y = y * x + h_coef(m_n - 2 - m_has);
    m_has++;
    m_bx = bits_of(x); m_by = bits_of(y); m_bdy = bits_of(dy);
}

int main(int argc, char** argv) {
#ifndef __CPROVER__
    nd_load(argv[1]);
#endif
    static cnd_vm_ctx C; cnd_vm_ctx S;
    memset(&C, 0, sizeof C);
    uint8_t n = (uint8_t)ND();
    union { double d; uint64_t u; } v; v.u = ND();
    m_gx = (int)(ND() & 0xFFFF);
    bool spline = FN >= SPLINE_EVAL;
    size_t sz = spline ? 16 : 8;
#ifdef BOUNDED_INPUTS
    H_ASSUME(n <= CCAP);
#endif
    size_t extra = (size_t)(ND() & 0xFF);
    uint8_t* d = nd_alloc(CCAP * 16 + 255, n * sz + extra); H_ASSUME(d != NULL);
#ifdef BOUNDED_INPUTS
    H_ASSUME(extra == 0);
    for (size_t i = 0; i < CCAP * 2; i++) {
        uint64_t w = ND();
        for (int b = 0; b < 8; b++) if (8 * i + b < n * sz) d[8 * i + b] = (uint8_t)(w >> (8 * b));
    }
#endif
    m_co = d; m_n = n; m_has = 0; m_k = 0; m_y = 0; m_bx = m_by = m_bdy = 0; m_t = v.d; m_zero = 0;
    m_c0 = n && !spline ? h_coef(n - 1) : 0;
    if (spline) { C.trans_spline_data = d; C.trans_spline_count = n; C.trans_type = CND_TRANS_SPLINE; }
    else { C.trans_poly_data = d; C.trans_poly_count = n; C.trans_type = CND_TRANS_POLY; }
    S = C;
    REACH("precondition is satisfiable");
    double got = FN == POLY_EVAL ? vm_math_poly_eval(&C, v.d) : FN == POLY_SOLVE ? vm_math_poly_solve(&C, v.d) :
                 FN == SPLINE_EVAL ? vm_math_spline_eval(&C, v.d) : vm_math_spline_solve(&C, v.d);
    CK(T_TRANS | T_MEM, C.trans_poly_data == S.trans_poly_data && C.trans_spline_data == S.trans_spline_data && C.trans_type == S.trans_type &&
        C.trans_poly_count == S.trans_poly_count && C.trans_spline_count == S.trans_spline_count && C.cursor == 0 && C.data_buffer == NULL, "the function changes nothing in the context");
#if defined(__CPROVER__) && !defined(BOUNDED_INPUTS)
#if FN == POLY_EVAL
    if (n == 0) CK(T_TRANS, same(got, 0), "an empty polynomial is zero");
    else if (n == 1) CK(T_TRANS, same(got, h_coef(0)), "a constant polynomial");
    else CK(T_TRANS, m_k == n - 1 && same(got, m_y), "Horner's rule over all coefficients, highest first");
#elif FN == POLY_SOLVE
    /* m_k Newton steps have been evaluated; the last one at m_bx gave m_by and derivative m_bdy */
    if (n < 2) CK(T_TRANS, same(got, 0), "a constant polynomial has no inverse: zero");
    else {
        CK(T_TRANS, m_k >= 1 && m_k <= 20, "at most twenty Newton steps");
        double x = val_of(m_bx), y = val_of(m_by), dy = val_of(m_bdy);
        if (close_enough(y, m_t) || dy == 0) CK(T_TRANS, same(got, x), "Newton's iteration stops at the solution or an extremum");
        else CK(T_TRANS, m_k == 20 && same(got, x - (y - m_t) / dy), "Newton's iteration takes twenty steps unless it stops");
    }
#elif FN == SPLINE_EVAL
    if (n < 2) CK(T_TRANS, same(got, 0), "fewer than two points: zero");
    else {
        CK(T_TRANS, m_has && m_k <= n - 2, "a segment is selected");
        CK(T_TRANS, m_k == n - 2 || h_encloses(m_k, m_t, 0), "the selected segment encloses the argument or is the last");
        if (m_gx < m_k) CK(T_TRANS, !h_encloses(m_gx, m_t, 0), "the selected segment is the first one that encloses the argument");
        CK(T_TRANS, same(got, on_segment(m_k, m_t, 0)), "the result lies on the selected segment");
    }
#else
    if (n < 2) CK(T_TRANS, same(got, 0), "fewer than two points: zero");
    else {
        CK(T_TRANS, m_has && m_k <= n - 2, "a segment is selected");
        if (m_gx < m_k) CK(T_TRANS, !h_encloses(m_gx, m_t, 1), "the selected segment is the first one that encloses the value");
        if (h_encloses(m_k, m_t, 1)) CK(T_TRANS, same(got, on_segment(m_k, m_t, 1)), "the result lies on the selected segment");
        else CK(T_TRANS, m_k == n - 2 && same(got, 0), "no segment encloses the value: zero");
    }
#endif
#else /* concrete: the specification computed directly */
    double want = 0;
    if (FN == POLY_EVAL) {
        if (n) { want = h_coef(n - 1); for (int i = n - 2; i >= 0; i--) want = want * v.d + h_coef(i); }
    } else if (FN == POLY_SOLVE) {
        for (int it = 0; it < 20; it++) {
            double y = n ? h_coef(n - 1) : 0, dy = 0;
            for (int i = n - 2; i >= 0; i--) { dy = dy * want + y; y = y * want + h_coef(i); }
            if (close_enough(y, v.d) || dy == 0) break;
            want = want - (y - v.d) / dy;
        }
    } else {
        int y = FN == SPLINE_SOLVE;
        for (int i = 0; i + 1 < n; i++)
            if (h_encloses(i, v.d, y) || (!y && i + 2 == n)) { want = on_segment(i, v.d, y); break; }
    }
    CK(T_TRANS, same(got, want), "the transform helper computes the specified function");
#endif
    REACH("the function returns");
#ifndef __CPROVER__
    printf("PASSED\n");
#endif
    return 0;
}
