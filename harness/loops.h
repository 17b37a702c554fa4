/* Invariants of the loops marked CND_LOOP in /repo. LOOP_<name> enables one: goto-instrument
 * --apply-loop-contracts then replaces the loop by "holds on entry; preserved by an arbitrary
 * iteration; havoc and assume at the exit", so the proof covers every number of iterations. */
#ifndef LOOPS_H
#define LOOPS_H

#if defined(LOOP_read_bits)
extern unsigned g_gb; extern size_t g_c0; extern unsigned g_bo; extern uint8_t g_field[33]; extern int g_bit;
/* after i bits: the cursor has advanced by i bits and val holds the first i bits */
#define CND_LOOP_read_bits \
    __CPROVER_assigns(i, val, ctx->cursor, ctx->bit_offset) \
    __CPROVER_loop_invariant(i <= count && ctx->cursor == g_c0 + (g_bo + i) / 8 && ctx->bit_offset == (g_bo + i) % 8 && \
        (i >= 64 || (val >> i) == 0) && \
        (g_gb >= i || ((ctx->endianness == CND_BE ? val >> (i - 1 - g_gb) : val >> g_gb) & 1) == (uint64_t)g_bit)) \
    __CPROVER_decreases(count - i)
#else
#define CND_LOOP_read_bits
#endif
#define CND_STEP_read_bits

#if defined(LOOP_write_bits)
extern unsigned g_gb; extern size_t g_c0; extern unsigned g_bo; extern int g_bit; extern size_t g_gi, g_pb; extern unsigned g_q; extern uint8_t *g_d; extern uint8_t g_old;
/* after i bits: bit g_gb (if below i) is stored; bit g_q of byte g_gi is still the old one unless it is one of the first i */
#define CND_LOOP_write_bits \
    __CPROVER_assigns(i, ctx->cursor, ctx->bit_offset, __CPROVER_object_whole(ctx->data_buffer)) \
    __CPROVER_loop_invariant(i <= count && ctx->cursor == g_c0 + (g_bo + i) / 8 && ctx->bit_offset == (g_bo + i) % 8 && \
        (g_gb >= i || h_bit(g_d[g_pb], (g_bo + g_gb) % 8) == g_bit) && \
        (g_gi >= ctx->data_len || (g_gi >= g_c0 && (g_gi - g_c0) * 8 + g_q >= g_bo && (g_gi - g_c0) * 8 + g_q < g_bo + i) || h_bit(g_d[g_gi], g_q) == h_bit(g_old, g_q))) \
    __CPROVER_decreases(count - i)
#else
#define CND_LOOP_write_bits
#endif

/* Ghosts of the transform helpers (math.c): m_co the coefficients, m_n how many, m_bx/m_by/m_bdy (m_y) argument,
 * value and derivative (their bits), m_k how far the computation has come, m_gx an arbitrary segment. */
#if defined(LOOP_poly_eval) || defined(LOOP_poly_solve) || defined(LOOP_spline_eval) || defined(LOOP_spline_solve)
extern const uint8_t* m_co; extern int m_n, m_k, m_gx, m_has; extern double m_y, m_t, m_c0, m_zero;
extern uint64_t m_bx, m_by, m_bdy; double h_coef(int i); void h_newton_step(bool first, double at);
#define H_SAME(a, b) (*(const uint64_t*)&(a) == *(const uint64_t*)&(b))
#endif
#if defined(LOOP_poly_eval) && (TAGS) == 2
#define CND_LOOP_poly_eval __CPROVER_assigns(i, y, tmp) __CPROVER_loop_invariant(i >= -1 && i <= (int)m_n - 2) __CPROVER_decreases(i)
#define CND_STEP_poly_eval
#elif defined(LOOP_poly_eval) /* m_k steps of Horner's rule done */
#define CND_LOOP_poly_eval \
    __CPROVER_assigns(i, y, tmp, m_y, m_k) \
    __CPROVER_loop_invariant(i >= -1 && i <= m_n - 2 && m_k == m_n - 2 - i && (m_k == 0 ? H_SAME(y, m_c0) : H_SAME(y, m_y))) \
    __CPROVER_decreases(i)
#define CND_STEP_poly_eval { if (m_k == 0) m_y = h_coef(m_n - 1); m_y = m_y * m_t + h_coef(m_n - 2 - m_k); m_k++; }
#else
#define CND_LOOP_poly_eval
#define CND_STEP_poly_eval
#endif
#if defined(LOOP_poly_solve) && (TAGS) == 2
#define CND_LOOP_poly_newton __CPROVER_assigns(iter, x) __CPROVER_loop_invariant(iter >= 0 && iter <= 20) __CPROVER_decreases(20 - iter)
#define CND_LOOP_poly_solve __CPROVER_assigns(i, y, dy, tmp) __CPROVER_loop_invariant(i >= -1 && i <= (int)m_n - 2) __CPROVER_decreases(i)
#define CND_STEP_poly_solve
#elif defined(LOOP_poly_solve)
/* m_k Newton steps evaluated or being evaluated, the last one at m_bx with value m_by and derivative m_bdy; m_has
 * coefficients of it used up. x is where the next step has to be taken (NaN payloads and the sign of zero are ignored). */
#define H_D(u) (*(const double*)&(u))
#define H_EQ(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
#define H_NEXT (H_D(m_bx) - (H_D(m_by) - m_t) / H_D(m_bdy))
#define H_STOP ((H_D(m_by) - m_t > -0.001 && H_D(m_by) - m_t < 0.001) || H_D(m_bdy) == 0)
#define CND_LOOP_poly_newton \
    __CPROVER_assigns(iter, x, m_bx, m_by, m_bdy, m_k, m_has) \
    __CPROVER_loop_invariant(iter >= 0 && iter <= 20 && m_k == iter && (iter == 0 ? H_SAME(x, m_zero) : (m_n >= 2 && !H_STOP && H_EQ(x, H_NEXT)))) \
    __CPROVER_decreases(20 - iter)
#define CND_LOOP_poly_solve \
    __CPROVER_assigns(i, y, dy, tmp, m_bx, m_by, m_bdy, m_k, m_has) \
    __CPROVER_loop_invariant(i >= -1 && i <= m_n - 2 && (i == m_n - 2 ? \
        (m_k == __CPROVER_loop_entry(m_k) && m_bx == __CPROVER_loop_entry(m_bx) && m_by == __CPROVER_loop_entry(m_by) && m_bdy == __CPROVER_loop_entry(m_bdy) && \
         H_SAME(y, m_c0) && H_SAME(dy, m_zero)) : \
        (m_k == __CPROVER_loop_entry(m_k) + 1 && m_has == m_n - 2 - i && H_SAME(m_bx, x) && H_SAME(y, m_by) && H_SAME(dy, m_bdy)))) \
    __CPROVER_decreases(i)
#define CND_STEP_poly_solve h_newton_step(i == m_n - 2, x);
#else
#define CND_LOOP_poly_solve
#define CND_LOOP_poly_newton
#define CND_STEP_poly_solve
#endif
/* m_k: the segment looked at last; segments before it do not enclose the argument (at an arbitrary one, m_gx) */
#if (defined(LOOP_spline_eval) || defined(LOOP_spline_solve)) && (TAGS) == 2
#define H_SPLINE(out, yc) __CPROVER_assigns(i, out) __CPROVER_loop_invariant(i >= 0 && i <= m_n - 1) __CPROVER_decreases(m_n - i)
#define H_SPLINE_STEP
#else
#define H_CO(k) (*(const double*)(m_co + 8 * (size_t)(k)))
#define H_ENCL(k, yc) ((m_t >= H_CO(2 * (k) + (yc)) && m_t <= H_CO(2 * (k) + 2 + (yc))) || ((yc) && m_t <= H_CO(2 * (k) + (yc)) && m_t >= H_CO(2 * (k) + 2 + (yc))))
#define H_SPLINE(out, yc) \
    __CPROVER_assigns(i, out, m_k, m_has) \
    __CPROVER_loop_invariant(i >= 0 && i <= m_n - 2 + (yc) && H_SAME(out, m_zero) && (i == 0 ? m_has == 0 : (m_has == 1 && m_k == i - 1 && !H_ENCL(i - 1, yc))) && \
        (m_gx >= i || !H_ENCL(m_gx, yc))) \
    __CPROVER_decreases(m_n - i)
#define H_SPLINE_STEP { m_k = i; m_has = 1; }
#endif
#if defined(LOOP_spline_eval)
#define CND_LOOP_spline_eval H_SPLINE(y, 0)
#define CND_STEP_spline_eval H_SPLINE_STEP
#else
#define CND_LOOP_spline_eval
#define CND_STEP_spline_eval
#endif
#if defined(LOOP_spline_solve)
#define CND_LOOP_spline_solve H_SPLINE(x, 1)
#define CND_STEP_spline_solve H_SPLINE_STEP
#else
#define CND_LOOP_spline_solve
#define CND_STEP_spline_solve
#endif
#if defined(LOOP_skip_body) /* the code's state is the ghost walker's (skip.c) */
extern const uint8_t* k_bc; extern size_t k_len, k_ip, k_s[], k_e[], k_il_ip, k_il_len, k_st_ip, k_st_s, k_st_e; extern int k_tables, k_depth, k_il_rc, k_st_rc; extern bool k_bad, k_il_has, k_st_has;
void h_skip_step(void);
#define H_TABLE(j) (k_tables <= j || (table_start[j] == k_s[j] && table_end[j] == k_e[j] && k_s[j] < k_e[j] && k_e[j] <= k_len))
#define CND_STEP_skip_body h_skip_step();
#define CND_LOOP_skip_body \
    __CPROVER_assigns(ctx->ip, tables, depth, __CPROVER_object_whole(table_start), __CPROVER_object_whole(table_end), k_ip, k_tables, k_depth, k_bad, \
        __CPROVER_object_whole(k_s), __CPROVER_object_whole(k_e), k_il_ip, k_il_len, k_il_rc, k_il_has, k_st_ip, k_st_s, k_st_e, k_st_rc, k_st_has) \
    __CPROVER_loop_invariant(ctx->ip == k_ip && k_ip >= __CPROVER_loop_entry(k_ip) && k_ip <= k_len && tables == k_tables && tables >= 0 && tables <= CND_MAX_LOOP_DEPTH && !k_bad && \
        depth == k_depth && depth >= 0 && (size_t)depth <= 1 + k_ip && \
        H_TABLE(0) && H_TABLE(1) && H_TABLE(2) && H_TABLE(3) && H_TABLE(4) && H_TABLE(5) && H_TABLE(6) && H_TABLE(7)) \
    __CPROVER_decreases(k_len - ctx->ip)
#else
#define CND_LOOP_skip_body
#define CND_STEP_skip_body
#endif
/* Ghost: h_ref is the Rocksoft register after the first h_n bytes of h_data; it is advanced in
 * lockstep with the code, whose register is related to it by the invariant. */
#if defined(LOOP_crc)
extern uint32_t h_ref; extern size_t h_n; extern const uint8_t* h_data; extern size_t h_len; extern uint32_t h_poly; extern int h_width, h_refin;
uint32_t h_crc_step(uint32_t r, uint8_t byte);
#define H_R1(x) ((((x) >> 1) & 0x55555555u) | (((x) & 0x55555555u) << 1))
#define H_R2(x) (((H_R1(x) >> 2) & 0x33333333u) | ((H_R1(x) & 0x33333333u) << 2))
#define H_R4(x) (((H_R2(x) >> 4) & 0x0F0F0F0Fu) | ((H_R2(x) & 0x0F0F0F0Fu) << 4))
#define H_REV32(x) (((H_R4(x) >> 24) & 0xFF) | ((H_R4(x) >> 8) & 0xFF00) | ((H_R4(x) << 8) & 0xFF0000) | (H_R4(x) << 24))
#define CND_STEP_crc_table if (h_n < h_len) { h_ref = h_crc_step(h_ref, h_data[h_n]); h_n++; }
#define CND_STEP_crc_bitwise CND_STEP_crc_table
#define CND_LOOP_crc_table \
    __CPROVER_assigns(i, crc, h_ref, h_n) \
    __CPROVER_loop_invariant(i <= len && h_n == i && crc == H_REV32(h_ref)) __CPROVER_decreases(len - i)
#define CND_LOOP_crc_bitwise \
    __CPROVER_assigns(i, crc, h_ref, h_n) \
    __CPROVER_loop_invariant(i <= len && h_n == i && crc == h_ref && (h_width == 32 || h_ref <= 0xFFFF)) __CPROVER_decreases(len - i)
#else
#define CND_LOOP_crc_table
#define CND_STEP_crc_table
#define CND_LOOP_crc_bitwise
#define CND_STEP_crc_bitwise
#endif
/* string tables: see strtab.c for the ghosts */
#if defined(LOOP_load_strings) || defined(LOOP_key_name) || defined(LOOP_key_id)
extern const uint8_t* l_im; extern size_t l_len, l_pos, l_q; extern uint32_t l_n; extern bool l_fail, l_hit, l_started; void h_string(size_t p);
/* behind the string the walk was at: a terminator inside the table, at l_q unless the string has an earlier zero byte */
#define L_OFF ((size_t)__CPROVER_POINTER_OFFSET(ptr))
#define L_IN __CPROVER_same_object(ptr, l_im)
#define L_WALK(i) (l_started ? i == l_n + 1 && l_q < l_len && l_pos <= l_q && l_im[l_q] == 0 && L_IN && L_OFF > l_pos && L_OFF <= l_q + 1 && l_im[L_OFF - 1] == 0 : i == 0 && l_n == 0 && L_IN && L_OFF == 0 && l_pos == 0)
#define L_SKIP (L_IN && L_OFF >= l_pos && L_OFF <= l_q)
#endif
#if defined(LOOP_load_strings)
#define CND_LOOP_load_strings \
    __CPROVER_assigns(i, str, l_pos, l_n, l_fail) \
    __CPROVER_loop_invariant(i <= str_count && l_n == i && !l_fail && l_pos <= l_len && str == l_im + l_pos) __CPROVER_decreases(str_count - i)
#else
#define CND_LOOP_load_strings
#endif
#define CND_STEP_load_strings
#if defined(LOOP_key_name)
#define CND_STEP_key_name h_string((size_t)__CPROVER_POINTER_OFFSET(ptr));
#define CND_LOOP_key_name \
    __CPROVER_assigns(i, ptr, l_pos, l_q, l_n, l_started) __CPROVER_loop_invariant(i <= key_id && L_WALK(i)) __CPROVER_decreases(key_id - i)
#define CND_LOOP_key_name_skip __CPROVER_assigns(ptr) __CPROVER_loop_invariant(L_SKIP) __CPROVER_decreases(l_q - L_OFF)
#else
#define CND_LOOP_key_name
#define CND_STEP_key_name
#define CND_LOOP_key_name_skip
#endif
#if defined(LOOP_key_id)
#define CND_STEP_key_id h_string((size_t)__CPROVER_POINTER_OFFSET(ptr));
#define CND_LOOP_key_id \
    __CPROVER_assigns(i, ptr, l_pos, l_q, l_n, l_started, l_hit) __CPROVER_loop_invariant(i <= program->string_count && !l_hit && L_WALK(i)) __CPROVER_decreases(program->string_count - i)
#define CND_LOOP_key_id_skip __CPROVER_assigns(ptr) __CPROVER_loop_invariant(L_SKIP) __CPROVER_decreases(l_q - L_OFF)
#else
#define CND_LOOP_key_id
#define CND_STEP_key_id
#define CND_LOOP_key_id_skip
#endif
/* Ghosts for membership: g_x is an arbitrary index; when the loop gets there, g_xp and g_xv record the
 * element's position and value. g_at, g_ata, g_atv (g_ato: the jump offset) record the element looked at
 * last. The invariants relate these records to the code's variables. */
#if defined(LOOP_enum_check) || defined(LOOP_switch_cases)
extern const uint8_t* g_bc; extern size_t g_x, g_xp, g_at, g_ata, g_elems; extern uint64_t g_xv, g_atv; extern uint32_t g_ato; /* g_elems: position of the first element */
#define H_B(k) ((uint64_t)g_bc[(k)])
#define H_E2(k) (H_B(k) | H_B((k) + 1) << 8)
#define H_E4(k) (H_E2(k) | H_E2((k) + 2) << 16)
#define H_E8(k) (H_E4(k) | H_E4((k) + 4) << 32)
#define H_ELEM(n, k) ((n) == 1 ? H_B(k) : (n) == 2 ? H_E2(k) : (n) == 4 ? H_E4(k) : H_E8(k))
#define H_MASKED(n, v) ((n) == 1 ? (uint64_t)(uint8_t)(v) : (n) == 2 ? (uint64_t)(uint16_t)(v) : (n) == 4 ? (uint64_t)(uint32_t)(v) : (uint64_t)(v))
#endif
/* A job covers one operand type (ITYPE, one case of a complete split): the loops of the others are not
 * entered, which is proved, and so need not be explored. */
#ifdef ITYPE
#define H_SAME_TYPE(x) (sizeof(x) == ((ITYPE) == 0x10 || (ITYPE) == 0x14 ? 1 : (ITYPE) == 0x11 || (ITYPE) == 0x15 ? 2 : (ITYPE) == 0x12 || (ITYPE) == 0x16 ? 4 : 8) && \
    ((__typeof__(x))-1 < 0) == ((ITYPE) >= 0x14))
#define H_ONLY_TYPE(x) if (!H_SAME_TYPE(x)) { __CPROVER_assert(0, "contract: only the loop of the operand's type is entered"); __CPROVER_assume(0); }
#elif defined(ITYPE_OTHER)
#define H_ONLY_TYPE(x) __CPROVER_assert(0, "contract: no loop is entered for other operand types"); __CPROVER_assume(0);
#else
#define H_ONLY_TYPE(x)
#endif
#if defined(LOOP_enum_check) && (TAGS) == 1
#define CND_STEP_enum_check H_ONLY_TYPE(actual)
#define CND_LOOP_enum_check \
    __CPROVER_assigns(i, pc, found) \
    __CPROVER_loop_invariant(i <= count && pc == g_bc + g_elems + (size_t)i * sizeof(actual)) \
    __CPROVER_decreases(count - i)
#elif defined(LOOP_enum_check)
#define CND_STEP_enum_check { H_ONLY_TYPE(actual) \
    g_at = i; g_ata = (size_t)(pc - g_bc); g_atv = H_ELEM(sizeof(actual), g_ata); \
    if (i == g_x) { g_xp = g_ata; g_xv = g_atv; } }
#define CND_LOOP_enum_check \
    __CPROVER_assigns(i, pc, found, g_at, g_ata, g_atv, g_xp, g_xv) \
    __CPROVER_loop_invariant(i <= count && !found && pc == g_bc + g_elems + (size_t)i * sizeof(actual) && \
        (g_x >= i || (g_xp == g_elems + g_x * sizeof(actual) && g_xv != H_MASKED(sizeof(actual), actual)))) \
    __CPROVER_decreases(count - i)
#else
#define CND_LOOP_enum_check
#define CND_STEP_enum_check
#endif
#if defined(LOOP_switch_cases) && (TAGS) == 1
#define CND_STEP_switch_cases
#define CND_LOOP_switch_cases \
    __CPROVER_assigns(i, ctx->ip, found, target_off) \
    __CPROVER_loop_invariant(i <= count && ctx->ip == g_elems + 12 * (size_t)i) \
    __CPROVER_decreases(count - i)
#elif defined(LOOP_switch_cases)
#define CND_STEP_switch_cases { \
    uint64_t h_v = H_E8(ctx->ip); \
    if (i == g_x) { g_xp = ctx->ip; g_xv = h_v; } \
    if (!found) { g_at = i; g_ata = ctx->ip; g_atv = h_v; g_ato = (uint32_t)H_E4(ctx->ip + 8); } }
#define CND_LOOP_switch_cases \
    __CPROVER_assigns(i, ctx->ip, found, target_off, g_at, g_ata, g_atv, g_ato, g_xp, g_xv) \
    __CPROVER_loop_invariant(i <= count && ctx->ip == g_elems + 12 * (size_t)i && \
        (g_x >= i || (g_xp == g_elems + 12 * g_x && (g_xv != disc_val || (found && g_at <= g_x)))) && \
        (!found || (g_at < i && g_ata == g_elems + 12 * g_at && g_atv == disc_val && (uint32_t)target_off == g_ato)) && \
        (found || (target_off == default_off && (i == 0 || g_atv != disc_val)))) \
    __CPROVER_decreases(count - i)
#else
#define CND_LOOP_switch_cases
#define CND_STEP_switch_cases
#endif
/* see util.c for the ghosts */
#if defined(LOOP_strtab_add)
extern size_t u_x; extern bool u_eqx; extern const char* u_p; extern size_t u_pl; extern int u_pc;
#define CND_LOOP_strtab_add __CPROVER_assigns(i, u_p, u_pl, u_pc) __CPROVER_loop_invariant(i <= t->count && (u_x >= i || !u_eqx)) __CPROVER_decreases(t->count - i)
#else
#define CND_LOOP_strtab_add
#endif
#define CND_STEP_strtab_add
#if defined(LOOP_dec32) || defined(LOOP_dec64)
extern const char* n_s; extern uint64_t n_v; extern int n_k; uint64_t h_fold(uint64_t v, char c, int base);
#define CND_STEP_hex32 { n_v = h_fold(n_v, n_s[n_k], 16); n_k++; }
#define CND_STEP_dec32 { n_v = h_fold(n_v, n_s[n_k], 10); n_k++; }
#define CND_STEP_hex64 CND_STEP_hex32
#define CND_STEP_dec64 CND_STEP_dec32
#define CND_LOOP_hex32 __CPROVER_assigns(i, res, n_v, n_k) __CPROVER_loop_invariant(i >= 2 && i <= length && i == n_k && res == (uint32_t)n_v) __CPROVER_decreases(length - i)
#define CND_LOOP_dec32 __CPROVER_assigns(i, res, n_v, n_k) __CPROVER_loop_invariant(i >= 0 && i <= length && i == n_k && res == (uint32_t)n_v) __CPROVER_decreases(length - i)
#define CND_LOOP_hex64 __CPROVER_assigns(s, res, n_v, n_k) __CPROVER_loop_invariant(__CPROVER_same_object(s, n_s) && n_k >= 0 && n_k <= length && (size_t)__CPROVER_POINTER_OFFSET(s) == (size_t)n_k && res == n_v) __CPROVER_decreases(length - n_k)
#define CND_LOOP_dec64 CND_LOOP_hex64
#else
#define CND_LOOP_hex32
#define CND_STEP_hex32
#define CND_LOOP_dec32
#define CND_STEP_dec32
#define CND_LOOP_hex64
#define CND_STEP_hex64
#define CND_LOOP_dec64
#define CND_STEP_dec64
#endif
/* see keys.c for the ghosts */
#if defined(LOOP_walk_keys) || defined(LOOP_prefix_walk)
extern uint8_t *k_bc, *k_o, *k_tab; extern size_t k_len, k_g, k_prev, k_n, k_out; extern bool k_called, k_intab, k_fail, k_used; extern uint8_t k_exp, k_got; extern uint16_t k_u, k_key; extern int k_nth, k_which;
/* where the walk is: behind the instruction, or one byte on inside a table */
#define K_WALK(at) (at <= k_len && k_bc != NULL && !k_fail && is_table == k_tab && (is_table[k_g] != 0) == k_intab && \
    (k_prev == (size_t)-1 ? at == 0 : k_called ? at == k_prev + k_n : (at == k_prev + 1 && (k_prev != k_g || k_intab))))
#define K_STEP(at) { k_prev = at; k_called = 0; }
#endif
#if defined(LOOP_walk_keys)
#if FN == 1
#define K_KEYS (used[k_u] != 0) == k_used && (k_g >= k_len || bc[k_g] == k_exp)
#define K_TARGET __CPROVER_object_whole(used)
#else
#define K_KEYS (k_g >= k_len || (k_g >= offset ? bc[k_g] == k_o[k_g] && k_exp == k_o[k_g] : bc[k_g] == k_exp))
#define K_TARGET __CPROVER_object_whole(bc)
#endif
#define CND_STEP_walk_keys K_STEP(offset)
#define CND_LOOP_walk_keys \
    __CPROVER_assigns(offset, K_TARGET, __CPROVER_object_whole(is_table), k_prev, k_n, k_called, k_intab, k_fail, k_used, k_exp, k_key, k_nth, k_which) \
    __CPROVER_loop_invariant(K_WALK(offset) && K_KEYS) __CPROVER_decreases(k_len - offset)
#else
#define CND_LOOP_walk_keys
#define CND_STEP_walk_keys
#endif
#if defined(LOOP_optimize_map)
extern char** o_strings; extern uint8_t* o_used; extern uint16_t k_u, o_ret; extern size_t o_count, o_freed; extern char* o_su; extern int o_walks; extern bool o_interned, k_used; extern void* o_new;
#define CND_LOOP_optimize_map \
    __CPROVER_assigns(i, __CPROVER_object_whole(map), o_interned, o_new) \
    __CPROVER_loop_invariant(i <= o_count && (o_new == NULL || o_new == &new_tab) && (k_u >= i || o_used[k_u] == 0 || (o_interned && map[k_u] == o_ret))) __CPROVER_decreases(o_count - i)
#define CND_LOOP_optimize_free __CPROVER_assigns(i, o_freed) __CPROVER_loop_invariant(i <= o_count) __CPROVER_decreases(o_count - i)
#else
#define CND_LOOP_optimize_map
#define CND_LOOP_optimize_free
#endif
#if defined(LOOP_prefix_walk)
#define CND_STEP_prefix_walk K_STEP(i)
#define CND_LOOP_prefix_walk \
    __CPROVER_assigns(i, __CPROVER_object_whole(is_table), k_prev, k_n, k_called, k_intab, k_fail, k_used, k_exp, k_key, k_nth, k_which, k_out, k_got) \
    __CPROVER_loop_invariant(K_WALK(i) && k_out == i && (k_which < 0 || k_nth > k_which) && (k_g >= k_len || (bool)(k_g >= i ? k_exp == k_o[k_g] : k_got == k_exp))) __CPROVER_decreases(k_len - i)
#else
#define CND_LOOP_prefix_walk
#define CND_STEP_prefix_walk
#endif
/* see verify.c for the ghosts */
#if defined(LOOP_verify_walk)
extern const uint8_t* v_bc; extern size_t v_len, v_p, v_s, v_il, v_prev, v_lastlen, v_ts, v_te, v_first, v_gs, v_ge; extern uint32_t v_x, v_n, v_k, v_cn; extern int v_rc, v_strc, v_stride; extern bool v_seen, v_start, v_called, v_pair;
#define V_E4(k) ((int64_t)(int32_t)((uint32_t)v_bc[(k)] | (uint32_t)v_bc[(k) + 1] << 8 | (uint32_t)v_bc[(k) + 2] << 16 | (uint32_t)v_bc[(k) + 3] << 24))
#define V_TARGET(base, at) (V_E4(at) >= -(int64_t)(base) && V_E4(at) <= (int64_t)(v_len - (base)))
#define V_OP v_bc[v_p]
#define V_JUMP (V_OP == OP_JUMP || V_OP == OP_JUMP_IF_NOT)
#define V_ENTRY(x) (V_OP == OP_SWITCH ? v_s + 14 + 12 * (size_t)(x) : v_s + 20 + 4 * (size_t)(x))
#define V_GOOD (v_rc == CND_ERR_OK && (!V_JUMP || V_TARGET(v_p + 5, v_p + 1)) && \
    ((V_OP != OP_SWITCH && V_OP != OP_SWITCH_TABLE) || (v_strc == CND_ERR_OK && V_TARGET(v_p + 7, V_OP == OP_SWITCH ? v_s + 2 : v_s + 16) && (v_x >= v_n || V_TARGET(v_p + 7, V_ENTRY(v_x))))))
#define V_FORALL(c) __CPROVER_forall { int j; (0 <= j && j < CND_VERIFY_MAX_TABLES) ==> (j >= tables || (c)) }
#if (TAGS) == 1 /* every visited instruction is good */
#define V_INV ((!v_seen || (v_p < v_len && V_GOOD)) && (!v_start || !v_seen))
#define V_TINV ((v_k == 0 ? entry == v_first : v_k <= v_cn && entry == (opcode == OP_SWITCH ? v_first + 12 * (size_t)v_k : v_first + 4 * (size_t)v_k)) && (ip != v_p || v_x >= v_k || V_TARGET(v_p + 7, V_ENTRY(v_x))))
#elif (TAGS) == 4 /* the walk */
#define V_INV (ip <= len && (v_start ? ip == 0 : (v_called ? ip == v_prev + v_lastlen : (ip > v_prev && (v_prev != v_gs || ip != v_ge || v_pair)))) && \
    V_FORALL(table_start[j] < table_end[j] && table_end[j] <= len && (table_start[j] != v_gs || table_end[j] != v_ge || v_pair)))
#define V_TINV 1
#else /* memory safety */
#define V_INV (ip <= len && V_FORALL(table_start[j] < table_end[j] && table_end[j] <= len))
#define V_TINV (v_k <= v_cn && entry == (opcode == OP_SWITCH ? v_first + 12 * (size_t)v_k : v_first + 4 * (size_t)v_k))
#endif
#define CND_STEP_verify_walk { v_prev = ip; v_called = 0; v_start = 0; }
#define CND_LOOP_verify_walk \
    __CPROVER_assigns(ip, tables, __CPROVER_object_whole(table_start), __CPROVER_object_whole(table_end), v_prev, v_lastlen, v_ts, v_te, v_k, v_cn, v_first, v_stride, v_seen, v_start, v_called, v_pair) \
    __CPROVER_loop_invariant(tables >= 0 && tables <= CND_VERIFY_MAX_TABLES && V_INV)
#define CND_LOOP_verify_tables __CPROVER_assigns(t) __CPROVER_loop_invariant(t >= 0 && t <= tables) __CPROVER_decreases(tables - t)
#define CND_STEP_verify_targets v_k++;
#define CND_LOOP_verify_targets __CPROVER_assigns(entry, v_k) __CPROVER_loop_invariant(V_TINV)
#else
#define CND_LOOP_verify_walk
#define CND_STEP_verify_walk
#define CND_LOOP_verify_tables
#define CND_LOOP_verify_targets
#define CND_STEP_verify_targets
#endif
#endif
