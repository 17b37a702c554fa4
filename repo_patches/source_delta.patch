From bdd177748203c428e2aa838859f69e5ca24f07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 01/38] Add CND_FETCH_OP instruction-boundary hook (guard:
 CND_CONTRACTS)

---
 src/vm/vm_exec.c     | 2 +-
 src/vm/vm_internal.h | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..6573ba9 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -686,7 +686,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
 
     while (pc < end) {
-        uint8_t opcode = *pc++;
+        uint8_t opcode = CND_FETCH_OP(ctx, pc);
         // printf("Opcode: %02X at IP %zu\n", opcode, (size_t)(pc - ctx->program->bytecode - 1));
 
         // Check alignment
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..aeab2f3 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -3,6 +3,15 @@
 
 #include "concordia.h"
 
+// Fetches the opcode at pc and advances past it. With CND_CONTRACTS defined
+// (verification builds only) the contract harness supplies its own definition,
+// which observes the VM state at every instruction boundary.
+#ifdef CND_CONTRACTS
+#include "cnd_contracts.h"
+#else
+#define CND_FETCH_OP(ctx, pc) (*(pc)++)
+#endif
+
 // --- IL Access ---
 
 static inline uint16_t read_il_u16(cnd_vm_ctx* ctx) {
-- 
2.43.0


From a074e3c3816dc940b6c798cc3051373c24405ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 02/38] fix: skip empty array bodies by whole instructions, not
 bytes

An operand byte that happened to equal an array opcode (a key id of 0x38, say)
made skip_loop_body stop early or run past the matching ARR_END.
---
 src/vm/cnd_il_layout.h | 143 +++++++++++++++++++++++++++++++++++++++++
 src/vm/vm_exec.c       |  32 ++++++++-
 2 files changed, 172 insertions(+), 3 deletions(-)
 create mode 100644 src/vm/cnd_il_layout.h

diff --git a/src/vm/cnd_il_layout.h b/src/vm/cnd_il_layout.h
new file mode 100644
index 0000000..7722fe0
--- /dev/null
+++ b/src/vm/cnd_il_layout.h
@@ -0,0 +1,143 @@
+#ifndef CND_IL_LAYOUT_H
+#define CND_IL_LAYOUT_H
+
+#include "concordia.h"
+
+// Layout of IL instructions: the single description of how many operand bytes
+// follow each opcode, as consumed by cnd_execute. Shared by everything that has
+// to walk bytecode without executing it.
+
+// Size in bytes of an immediate of the given IO type, 0 if it has none.
+static inline size_t cnd_il_type_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8: case OP_IO_I8: return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
+        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
+        default: return 0;
+    }
+}
+
+// Length in bytes (opcode included) of the instruction at bc[ip]; requires ip < len.
+// CND_ERR_INVALID_OP: unknown opcode or operand type. CND_ERR_OOB: truncated.
+static inline cnd_error_t cnd_il_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out) {
+    size_t avail = len - ip;
+    const uint8_t* p = bc + ip;
+    size_t n = 0;
+
+    switch (p[0]) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE:
+        case OP_EXIT_STRUCT: case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE:
+        case OP_ARR_END: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            n = 1; break;
+
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL: case OP_EMIT:
+            n = 2; break;
+
+        case OP_ENTER_STRUCT: case OP_META_NAME:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            n = 3; break; // key(2)
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I:
+            n = 4; break; // key(2) + bits(1)
+
+        case OP_STR_NULL: // key(2) + max_len(2)
+        case OP_ARR_DYNAMIC: // key(2) + ref_key(2)
+        case OP_JUMP: case OP_JUMP_IF_NOT: // offset(4)
+            n = 5; break;
+
+        case OP_ARR_FIXED: case OP_RAW_BYTES: // key(2) + count(4)
+        case OP_SWITCH: case OP_SWITCH_TABLE: // key(2) + table_offset(4)
+            n = 7; break;
+
+        case OP_CRC_16: n = 8; break;
+        case OP_CRC_32: n = 14; break;
+        case OP_SCALE_LIN: n = 17; break;
+        case OP_PUSH_IMM:
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+            n = 9; break;
+
+        case OP_TRANS_POLY: // count(1) + count * double
+            if (avail < 2) return CND_ERR_OOB;
+            n = 2 + (size_t)p[1] * 8; break;
+        case OP_TRANS_SPLINE: // count(1) + count * (double, double)
+            if (avail < 2) return CND_ERR_OOB;
+            n = 2 + (size_t)p[1] * 16; break;
+
+        case OP_CONST_WRITE: // type(1) + value
+            if (avail < 2) return CND_ERR_OOB;
+            if (p[1] < OP_IO_U8 || p[1] > OP_IO_U64) return CND_ERR_INVALID_OP;
+            n = 2 + cnd_il_type_size(p[1]); break;
+        case OP_CONST_CHECK: // key(2) + type(1) + value
+            if (avail < 4) return CND_ERR_OOB;
+            if (p[3] < OP_IO_U8 || p[3] > OP_IO_I64) return CND_ERR_INVALID_OP;
+            n = 4 + cnd_il_type_size(p[3]); break;
+        case OP_RANGE_CHECK: // type(1) + min + max
+            if (avail < 2) return CND_ERR_OOB;
+            if (cnd_il_type_size(p[1]) == 0) return CND_ERR_INVALID_OP;
+            n = 2 + 2 * cnd_il_type_size(p[1]); break;
+        case OP_ENUM_CHECK: // type(1) + count(2) + count * value
+            if (avail < 4) return CND_ERR_OOB;
+            if (p[1] < OP_IO_U8 || p[1] > OP_IO_I64) return CND_ERR_INVALID_OP;
+            n = 4 + ((size_t)p[2] | ((size_t)p[3] << 8)) * cnd_il_type_size(p[1]); break;
+
+        default:
+            return CND_ERR_INVALID_OP;
+    }
+
+    if (n > avail) return CND_ERR_OOB;
+    *out = n;
+    return CND_ERR_OK;
+}
+
+// Locates the jump table of the SWITCH / SWITCH_TABLE instruction at bc[ip], which
+// must be complete (see cnd_il_instr_len). On success [*start, *end) is the table
+// as read by cnd_execute, and lies inside the bytecode.
+static inline cnd_error_t cnd_il_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* end) {
+    const uint8_t* p = bc + ip;
+    size_t body = ip + 7;
+    size_t rel = (size_t)p[3] | ((size_t)p[4] << 8) | ((size_t)p[5] << 16) | ((size_t)p[6] << 24);
+    if (rel > len - body) return CND_ERR_OOB;
+
+    const uint8_t* t = bc + body + rel;
+    size_t avail = len - body - rel;
+    size_t size;
+
+    if (p[0] == OP_SWITCH) {
+        // Count(2) + Default(4) + Count * (Value(8) + Offset(4))
+        if (avail < 6) return CND_ERR_OOB;
+        size = 6 + ((size_t)t[0] | ((size_t)t[1] << 8)) * 12;
+        if (size > avail) return CND_ERR_OOB;
+    } else {
+        // Min(8) + Max(8) + Default(4) + (Max - Min + 1) * Offset(4)
+        if (avail < 20) return CND_ERR_OOB;
+        uint64_t min_val = 0, max_val = 0;
+        for (int i = 7; i >= 0; i--) {
+            min_val = (min_val << 8) | t[i];
+            max_val = (max_val << 8) | t[8 + i];
+        }
+        if (max_val < min_val) return CND_ERR_VALIDATION;
+        if (max_val - min_val >= (avail - 20) / 4) return CND_ERR_OOB;
+        size = 20 + ((size_t)(max_val - min_val) + 1) * 4;
+    }
+
+    *start = body + rel;
+    *end = body + rel + size;
+    return CND_ERR_OK;
+}
+
+#endif
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 6573ba9..dca3d52 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1,4 +1,5 @@
 #include "vm_internal.h"
+#include "cnd_il_layout.h"
 #include <string.h>
 #include <stdio.h>
 #include <inttypes.h>
@@ -303,14 +304,39 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 
 // --- Loop Stack Helpers ---
 
+// Skips the body of an empty array: on entry ip is the first instruction of the
+// body, on exit it is just past the matching ARR_END. Walks whole instructions
+// (operand bytes may look like array opcodes) and steps over inline switch tables.
 static void skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
+    size_t table_start[CND_MAX_LOOP_DEPTH];
+    size_t table_end[CND_MAX_LOOP_DEPTH];
+    int tables = 0;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    while (ctx->ip < len && depth > 0) {
+        if (tables > 0 && ctx->ip == table_start[tables - 1]) {
+            ctx->ip = table_end[--tables];
+            continue;
+        }
+        uint8_t op = bc[ctx->ip];
+        size_t instr_len;
+        if (cnd_il_instr_len(bc, len, ctx->ip, &instr_len) != CND_ERR_OK) {
+            ctx->ip = len; // Malformed body: there is nothing valid to resume at
+            return;
+        }
+        if ((op == OP_SWITCH || op == OP_SWITCH_TABLE) && tables < CND_MAX_LOOP_DEPTH) {
+            size_t start, end;
+            if (cnd_il_switch_table(bc, len, ctx->ip, &start, &end) == CND_ERR_OK) {
+                table_start[tables] = start;
+                table_end[tables] = end;
+                tables++;
+            }
+        }
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        ctx->ip += instr_len;
     }
 }
 
-- 
2.43.0


From 0997ac818e1b4b0d846c51599425ee2159d72c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 03/38] fix: make cnd_verify_program use the instruction layout
 the VM executes

The verifier disagreed with cnd_execute about the operand size of a dozen
opcodes, did not know ENUM_CHECK, TRANS_* and others, rejected jumps to the end
of the program and read inline switch tables as code, so it rejected most
compiler output and lost track of instruction boundaries in the rest.
---
 src/vm/vm_verify.c | 312 ++++++++-------------------------------------
 1 file changed, 54 insertions(+), 258 deletions(-)

diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..11202df 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,5 +1,22 @@
 #include "concordia.h"
 #include "vm_internal.h"
+#include "cnd_il_layout.h"
+
+#define CND_VERIFY_MAX_TABLES 32
+
+static uint32_t verify_u32(const uint8_t* p)
+{
+    return (uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24);
+}
+
+// A jump lands on an instruction boundary candidate inside the program, or exactly
+// at its end (which terminates execution).
+static bool verify_target(size_t base, uint32_t offset, size_t len)
+{
+    int64_t rel = (int32_t)offset;
+    if (rel < 0) return (size_t)(-rel) <= base;
+    return (size_t)rel <= len - base;
+}
 
 cnd_error_t cnd_verify_program(const cnd_program* program)
 {
@@ -7,273 +24,52 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
         return CND_ERR_OOB;
     }
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
+    size_t ip = 0;
+    size_t len = program->bytecode_len;
     const uint8_t* bc = program->bytecode;
 
-    while (ip < len) {
-        uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
-
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
-
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
+    // Jump tables not reached yet. They are data, so the walk steps over them.
+    size_t table_start[CND_VERIFY_MAX_TABLES];
+    size_t table_end[CND_VERIFY_MAX_TABLES];
+    int tables = 0;
 
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
+    while (ip < len) {
+        int t = 0;
+        while (t < tables && table_start[t] != ip) t++;
+        if (t < tables) {
+            ip = table_end[t];
+            tables--;
+            table_start[t] = table_start[tables];
+            table_end[t] = table_end[tables];
+            continue;
+        }
 
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
+        uint8_t opcode = bc[ip];
+        size_t instr_len;
+        cnd_error_t err = cnd_il_instr_len(bc, len, ip, &instr_len);
+        if (err != CND_ERR_OK) return err;
 
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
+        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
+            if (!verify_target(ip + 5, verify_u32(bc + ip + 1), len)) return CND_ERR_OOB;
+        } else if (opcode == OP_SWITCH || opcode == OP_SWITCH_TABLE) {
+            size_t body = ip + 7; // Targets are relative to the end of the instruction
+            size_t start, end;
+            err = cnd_il_switch_table(bc, len, ip, &start, &end);
+            if (err != CND_ERR_OK) return err;
 
-            case OP_JUMP:
-            case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
-                break;
+            size_t first = (opcode == OP_SWITCH) ? start + 6 + 8 : start + 20;
+            size_t stride = (opcode == OP_SWITCH) ? 12 : 4;
+            size_t def = (opcode == OP_SWITCH) ? start + 2 : start + 16;
 
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
-            case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
+            if (!verify_target(body, verify_u32(bc + def), len)) return CND_ERR_OOB;
+            for (size_t entry = first; entry < end; entry += stride) {
+                if (!verify_target(body, verify_u32(bc + entry), len)) return CND_ERR_OOB;
             }
 
-            default:
-                return CND_ERR_INVALID_OP;
-        }
-
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
-
-        // Additional checks for JMP
-        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
-            }
+            if (tables >= CND_VERIFY_MAX_TABLES) return CND_ERR_STACK_OVERFLOW;
+            table_start[tables] = start;
+            table_end[tables] = end;
+            tables++;
         }
 
         ip += instr_len;
-- 
2.43.0


From d138b8b9a662538e601a95878e60f055de9cfe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 04/38] fix: bound ENUM_CHECK and polynomial/spline operands
 before using them

ENUM_CHECK read the bytes before data_buffer when fewer than sizeof(type) bytes
had been processed, and these instructions could move pc past the end of the
program (reading the value list beyond the bytecode).
---
 src/vm/vm_exec.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index dca3d52..72b3046 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -818,6 +818,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint16_t count = FETCH_IL_U16(ctx);
                 bool found = false;
+                size_t type_size = cnd_il_type_size(type);
+
+                if ((size_t)(end - pc) < count * type_size) return CND_ERR_OOB;
+                if (ctx->cursor < type_size) return CND_ERR_OOB;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
                     ctype actual = (READ_EXPR); \
@@ -935,8 +939,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_POLY;
                 ctx->trans_poly_count = count;
                 ctx->trans_poly_data = pc;
+                if ((size_t)(end - pc) < (size_t)count * 8) return CND_ERR_OOB;
                 pc += (count * 8);
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
@@ -945,8 +949,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_SPLINE;
                 ctx->trans_spline_count = count;
                 ctx->trans_spline_data = pc;
+                if ((size_t)(end - pc) < (size_t)count * 2 * 8) return CND_ERR_OOB;
                 pc += (count * 2 * 8); // 2 doubles per point
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
-- 
2.43.0


From da2aff464cb2e34609a9c65615da818bcc29dd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 05/38] fix: report bitfields that do not fit the buffer
 instead of truncating them

Decoding a bitfield past the end of the data returned zero bits with CND_ERR_OK,
encoding dropped the bits, and ALIGN_PAD moved the cursor past data_len, which
let later instructions read and write outside the buffer. Widths over 64 bits
shifted out of range.
---
 src/vm/vm_exec.c     | 46 ++++++++++++++++++++++++++++++++++++++++++--
 src/vm/vm_internal.h | 10 ++++++++--
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 72b3046..7e267d0 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -446,6 +446,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     }
 
 static int64_t sign_extend(uint64_t val, uint8_t bits) {
+    if (bits == 0) return 0;
     if (bits >= 64) return (int64_t)val;
     uint64_t m = 1ULL << (bits - 1);
     return (int64_t)((val ^ m) - m);
@@ -1007,8 +1008,31 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
-            
+            case OP_IO_BIT_U: {
+                uint16_t k = FETCH_IL_U16(ctx);
+                uint8_t b = FETCH_IL_U8(ctx);
+                uint64_t v = 0;
+                if (b > 64) return CND_ERR_INVALID_OP;
+                if (!bits_available(ctx, b)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    ctx->is_next_optional = false;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
+                if (ctx->mode == CND_MODE_ENCODE) {
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    write_bits(ctx, v, b);
+                } else {
+                    v = read_bits(ctx, b);
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                }
+                ctx->is_next_optional = false;
+                break;
+            }
+
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
                 break;
@@ -1039,6 +1063,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                if (b > 64) return CND_ERR_INVALID_OP;
+                if (!bits_available(ctx, b)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    ctx->is_next_optional = false;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1049,11 +1081,19 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
                 } 
+                ctx->is_next_optional = false;
                 break; 
             }
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                if (!bits_available(ctx, 1)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    ctx->is_next_optional = false;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1065,10 +1105,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
+                ctx->is_next_optional = false;
                 break;
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_bits(ctx, 0, b);
                 } else {
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index aeab2f3..e35d22f 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -103,6 +103,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if count more bits fit between the bit cursor and the end of the buffer
+static inline bool bits_available(const cnd_vm_ctx* ctx, uint8_t count) {
+    size_t bytes = ((size_t)ctx->bit_offset + count + 7) / 8;
+    return bytes <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
@@ -215,11 +221,11 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
 
         if (ctx->endianness == CND_BE) {
             // BE: Write MSB of val first to MSB of stream
-            bit = (val >> (count - 1 - i)) & 1;
+            bit = (count - 1 - i < 64) ? (val >> (count - 1 - i)) & 1 : 0;
             mask = 1 << (7 - ctx->bit_offset);
         } else {
             // LE: Write LSB of val first to LSB of stream
-            bit = (val >> i) & 1;
+            bit = (i < 64) ? (val >> i) & 1 : 0;
             mask = 1 << ctx->bit_offset;
         }
 
-- 
2.43.0


From 8485abf9b670fc1bd06439ab51fbd94547deaad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 06/38] fix: do not leave a loop frame behind when an EOF array
 is empty

The frame pushed before the body (and its ARR_END) was skipped was never popped,
so the enclosing array ended after the current element.
---
 src/vm/vm_exec.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 7e267d0..49aac0e 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1220,17 +1220,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
 
-                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
-                    // Skip loop
+                    // Skip loop (body and ARR_END), so no frame is needed
                     skip_loop_body(ctx);
                     RELOAD_PC();
+                    break;
                 }
+
+                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
+                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
+                frame->start_ip = ctx->ip;
+                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
                 break;
             }
 
-- 
2.43.0


From 0a808e01393f96c9b1bb6b2d6a93672ca872f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 07/38] fix: do not bypass a pending transform in the
 byte-array fast path

The fast path handed the raw bytes to the host and left the transform pending,
so it was applied to whatever field came next.
---
 src/vm/vm_exec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 49aac0e..ef23286 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -356,6 +356,8 @@ static void loop_pop(cnd_vm_ctx* ctx) {
 
 static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     if (count == 0) return false;
+    // A pending transform or optional marker has to be applied by the element itself
+    if (ctx->trans_type != CND_TRANS_NONE || ctx->is_next_optional) return false;
     if (ctx->ip + 3 >= ctx->program->bytecode_len) return false;
     
     uint8_t next_op = ctx->program->bytecode[ctx->ip];
-- 
2.43.0


From fecea6777aa60151b9739efde79948b4c404c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 08/38] fix: drop the pending transform together with a missing
 optional field

It stayed pending and was applied to the next field instead.
---
 src/vm/vm_exec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ef23286..5017bcc 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -127,6 +127,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
               ctx->is_next_optional = false; \
+              ctx->trans_type = CND_TRANS_NONE; \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -211,6 +212,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
               ctx->is_next_optional = false; \
+              ctx->trans_type = CND_TRANS_NONE; \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-- 
2.43.0


From 41bfdb4108fe3f27108a50a4cf31fa790bedcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 09/38] fix: keep integer transforms and ALU ops free of
 overflow traps

Division of INT64_MIN by -1 raised SIGFPE from bytecode/data alone; signed
overflow and shifts by 64 or more were undefined. All wrap to 64 bits now and
oversized shifts yield 0.
---
 src/vm/vm_exec.c | 56 ++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5017bcc..1b6816f 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -96,22 +96,29 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// 64-bit two's complement arithmetic: results wrap instead of being undefined.
+static inline int64_t vm_math_div_i64(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return (int64_t)(0 - (uint64_t)a); // INT64_MIN / -1 would trap
+    return a / b;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)raw + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)raw - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return (int64_t)((uint64_t)raw * (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_div_i64(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)eng - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)eng + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_div_i64(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return (int64_t)((uint64_t)eng * (uint64_t)ctx->trans_i_val);
         default: return eng;
     }
 }
@@ -239,27 +246,11 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  ctype val = (ctype)raw64; \
+                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -669,6 +660,12 @@ static inline cnd_error_t stack_pop(cnd_vm_ctx* ctx, uint64_t* val) {
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
     if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
 
+// Helper for shifts (all bits are shifted out for counts of 64 and more)
+#define BINARY_SHIFT(OP) \
+    uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    if (stack_push(ctx, b < 64 ? a OP b : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+
 // Helper for unary operations
 #define UNARY_OP(OP) \
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
@@ -1638,8 +1635,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_NEG: {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
-                // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                if (stack_push(ctx, 0 - a) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1727,8 +1723,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL:     { BINARY_SHIFT(<<); break; }
+            case OP_SHR:     { BINARY_SHIFT(>>); break; }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From 2051e4ba7f2ac4c410237b4fe14d79ad3128ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 10/38] fix: reject float to integer conversions that do not
 fit

Converting an out-of-range, infinite or NaN value to an integer is undefined;
a scale/polynomial/spline encode and FTOI now return CND_ERR_ARITHMETIC.
---
 src/vm/vm_exec.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1b6816f..b3a8503 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -96,6 +96,15 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// True if v truncated towards zero is representable in a bits wide integer; the
+// conversion is undefined otherwise (out of range, infinite, NaN).
+static inline bool vm_math_fits(double v, int bits, bool is_signed) {
+    double limit = is_signed ? (double)((uint64_t)1 << (bits - 1)) : 2.0 * (double)((uint64_t)1 << (bits - 1));
+    if (is_signed) return (v >= -limit || v > -limit - 1.0) && v < limit;
+    return v > -1.0 && v < limit;
+}
+#define VM_FITS(v, ctype) vm_math_fits((v), (int)sizeof(ctype) * 8, (ctype)-1 < (ctype)1)
+
 // 64-bit two's complement arithmetic: results wrap instead of being undefined.
 static inline int64_t vm_math_div_i64(int64_t a, int64_t b) {
     if (b == 0) return a;
@@ -148,7 +157,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  eng_val = (eng_val - ctx->trans_f_offset) / ctx->trans_f_factor; \
+                  if (!VM_FITS(eng_val, ctype)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)eng_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -161,7 +172,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  eng_val = vm_math_poly_solve(ctx, eng_val); \
+                  if (!VM_FITS(eng_val, ctype)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)eng_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -174,7 +187,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  eng_val = vm_math_spline_solve(ctx, eng_val); \
+                  if (!VM_FITS(eng_val, ctype)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)eng_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -250,6 +265,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  if (!VM_FITS(val, int64_t)) return CND_ERR_ARITHMETIC; \
                   eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -1705,6 +1721,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                if (!VM_FITS(f, int64_t)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
-- 
2.43.0


From a33df4edee9ffc52481cd9d5731af2b1244513a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 11/38] fix: apply polynomial and spline transforms to float
 fields

They fell into the integer transform branch, which ignored them and truncated
the value to an integer.
---
 src/vm/vm_exec.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index b3a8503..d27e886 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -256,6 +256,32 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
+          } else if (ctx->trans_type == CND_TRANS_POLY) { \
+              double eng_val = 0; \
+              if (ctx->mode == CND_MODE_ENCODE) { \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
+              } else { \
+                  int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  eng_val = vm_math_poly_eval(ctx, (double)val); \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              } \
+          } else if (ctx->trans_type == CND_TRANS_SPLINE) { \
+              double eng_val = 0; \
+              if (ctx->mode == CND_MODE_ENCODE) { \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
+              } else { \
+                  int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  eng_val = vm_math_spline_eval(ctx, (double)val); \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              } \
           } else { \
               int64_t eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
-- 
2.43.0


From dbbbd26a979e41b42f54fe0e8e0d84bb4be8ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 12/38] fix: reflect the initial value in the CRC-32 table path

With a non-palindromic init the table path and the bitwise path disagreed.
---
 src/vm/vm_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index d27e886..c1e4e73 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -494,7 +494,7 @@ static int64_t sign_extend(uint64_t val, uint8_t bits) {
 static uint32_t reflect(uint32_t val, int bits) {
     uint32_t res = 0;
     for (int i = 0; i < bits; i++) {
-        if (val & (1 << i)) res |= (1 << (bits - 1 - i));
+        if (val & ((uint32_t)1 << i)) res |= ((uint32_t)1 << (bits - 1 - i));
     }
     return res;
 }
@@ -537,7 +537,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32); // The table works on the reflected register
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From e20a00f9612296b9deb28a7d3357bc1cbd6dacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 13/38] fix: shift bytes into the sign bit as unsigned

byte << 24 overflows int for bytes above 0x7F, which is undefined.
---
 src/vm/vm_exec.c     | 8 ++++----
 src/vm/vm_internal.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c1e4e73..4ef7864 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -560,7 +560,7 @@ static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_
                 else crc = (crc << 1) & 0xFFFF;
             }
         } else { // 32
-            crc ^= (uint32_t)(octet << 24);
+            crc ^= (uint32_t)octet << 24;
             for (int j = 0; j < 8; j++) {
                 if (crc & 0x80000000) crc = (crc << 1) ^ poly;
                 else crc <<= 1;
@@ -618,8 +618,8 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     if (image[5] != 1) return CND_ERR_INVALID_OP; // Version check
 
     uint16_t str_count = image[6] | (image[7] << 8);
-    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | (image[11] << 24);
-    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | (image[15] << 24);
+    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | ((uint32_t)image[11] << 24);
+    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | ((uint32_t)image[15] << 24);
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
@@ -749,7 +749,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
     #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | (pc[-1] << 24))) : 0)
+    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
     #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index e35d22f..4a26e3d 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -33,7 +33,7 @@ static inline uint32_t read_il_u32(cnd_vm_ctx* ctx) {
     uint32_t val = ctx->program->bytecode[ctx->ip] | 
                    (ctx->program->bytecode[ctx->ip + 1] << 8) | 
                    (ctx->program->bytecode[ctx->ip + 2] << 16) | 
-                   (ctx->program->bytecode[ctx->ip + 3] << 24);
+                   ((uint32_t)ctx->program->bytecode[ctx->ip + 3] << 24);
     ctx->ip += 4;
     return val;
 }
@@ -56,7 +56,7 @@ static inline uint64_t read_il_u64(cnd_vm_ctx* ctx) {
 static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     if (idx + 4 > ctx->program->bytecode_len) return 0;
     const uint8_t* b = ctx->program->bytecode + idx;
-    return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+    return b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
 }
 
 // --- Data Access (Read) ---
@@ -75,9 +75,9 @@ static inline uint16_t read_u16(const uint8_t* buf, cnd_endian_t endian) {
 
 static inline uint32_t read_u32(const uint8_t* buf, cnd_endian_t endian) {
     if (endian == CND_LE) {
-        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24);
+        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | ((uint32_t)buf[3] << 24);
     } else {
-        return (buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
+        return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
     }
 }
 
-- 
2.43.0


From aee18a59218db7de2c769e898a2b824b2ac55108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 14/38] fix: bound switch tables against the end of the
 bytecode

index * 4 wrapped for large SWITCH_TABLE ranges, reading a wrong entry or
memory before the bytecode; a truncated SWITCH table was read as zeroes.
---
 src/vm/vm_exec.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 4ef7864..99e84e5 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1365,6 +1365,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 size_t original_ip = ctx->ip;
                 ctx->ip = table_start_ip;
                 
+                // The whole table has to be present
+                const uint8_t* bc = ctx->program->bytecode;
+                size_t table_len = ctx->program->bytecode_len - table_start_ip;
+                if (table_len < 6) return CND_ERR_OOB;
+                if ((table_len - 6) / 12 < (size_t)(bc[table_start_ip] | (bc[table_start_ip + 1] << 8))) return CND_ERR_OOB;
+                
                 uint16_t count = read_il_u16(ctx);
                 int32_t default_off = (int32_t)read_il_u32(ctx);
                 
@@ -1430,12 +1436,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (disc_val >= min_val && disc_val <= max_val) {
                     uint64_t index = disc_val - min_val;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
-                    // We are currently at table_start + 20 (ctx->ip)
-                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
-                    
                     // Check bounds for the offset entry
-                    if (offset_loc + 4 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                    if (index >= (ctx->program->bytecode_len - (table_start_ip + 20)) / 4) return CND_ERR_OOB;
                     
+                    size_t offset_loc = table_start_ip + 20 + (size_t)(index * 4);
                     target_off = (int32_t)peek_il_u32(ctx, offset_loc);
                 }
                 
-- 
2.43.0


From 5c1f9900e544f8998735e5d2e6b4be9c90411e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 15/38] fix: execute OP_SWAP

The opcode is defined and accepted by the verifier but did nothing.
---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 99e84e5..f6de56d 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1540,6 +1540,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_EMIT: {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
-- 
2.43.0


From 79298d43b1835683d871c1b13e6a56b6aa2ab2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 16/38] fix: compare computed fields at their own width when
 decoding

Encode stores the low bytes of the value, decode compared all 64 bits, so a
negative or wrapped @expr field could be encoded but not decoded.
---
 src/vm/vm_exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index f6de56d..bd163d4 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1660,7 +1660,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         double diff = d_val - d_bin;
                         if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
                     } else {
-                        if (bin_val != val) return CND_ERR_VALIDATION;
+                        // Only the bytes that encode writes can be compared
+                        uint64_t mask = UINT64_MAX >> (64 - 8 * size);
+                        if (bin_val != (val & mask)) return CND_ERR_VALIDATION;
                     }
                     
                     ctx->cursor += size;
-- 
2.43.0


From 092a29a388bb6a5521b5c80efe9069740866417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 17/38] fix: deliver an empty string for a missing optional
 string field

Decode returned CND_ERR_OOB although encode may omit the field; a NULL string
from the host was passed to memcpy.
---
 src/vm/vm_exec.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index bd163d4..f1a8f12 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -419,6 +419,9 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
 
 // --- Array/String Helpers ---
 
+// Delivered for a missing optional string: a zero length prefix of any width, and ""
+static const char empty_string[8] = {0};
+
 #define HANDLE_ARRAY_PRE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { \
         uint16_t key = FETCH_IL_U16(ctx); \
@@ -467,14 +470,23 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (ctype)len; \
             WRITE_EXPR; \
-            memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
+            if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            ctype len_val = (READ_EXPR); \
-            if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
-            const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
+            ctype len_val = 0; \
+            bool present = ctx->cursor + (size) <= ctx->data_len; \
+            if (present) { \
+                len_val = (READ_EXPR); \
+                present = ctx->cursor + (size) + len_val <= ctx->data_len; \
+            } \
             SYNC_IP(); \
+            if (!present) { \
+                if (!ctx->is_next_optional) return CND_ERR_OOB; \
+                ctx->is_next_optional = false; \
+                if (ctx->io_callback(ctx, key, opcode, (void*)(empty_string + (size))) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                break; \
+            } \
+            const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
             ctx->cursor += (size) + len_val; \
         } \
@@ -1186,7 +1198,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
                     
-                    memcpy(ctx->data_buffer + ctx->cursor, str, len);
+                    if (len > 0) memcpy(ctx->data_buffer + ctx->cursor, str, len);
                     ctx->cursor += len;
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
@@ -1208,7 +1220,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         ctx->cursor += len;
                     }
 
-                    if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    if (ctx->cursor >= ctx->data_len) {
+                        if (!ctx->is_next_optional) return CND_ERR_OOB;
+                        ctx->is_next_optional = false;
+                        ctx->cursor = start;
+                        SYNC_IP();
+                        if (ctx->io_callback(ctx, key, opcode, (void*)empty_string) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From 9cbc049b0c7aa8b2f59ee675176cee659887a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 18/38] fix: require the terminator of a zero-terminated string

A field filling max_len without a NUL was handed to the host unterminated, so
it read past the field and possibly past the buffer.
---
 src/vm/vm_exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index f1a8f12..3a1c686 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1229,6 +1229,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         break;
                     }
                     
+                    // The host reads up to the terminator, so it has to be there
+                    if (ctx->data_buffer[ctx->cursor] != 0) return CND_ERR_VALIDATION;
+                    
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
                     if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK;
-- 
2.43.0


From f502381200d1d4a2ce504efd895f42b9ad6d4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 19/38] fix: reject IL images whose string table runs past the
 image

cnd_get_key_name/cnd_get_key_id walked past the end of such an image.
---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 3a1c686..f6db13b 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -635,6 +635,14 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
+    // Key lookups walk the table string by string: all of them have to be terminated
+    const uint8_t* str = image + str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const uint8_t* nul = memchr(str, 0, (size_t)(image + len - str));
+        if (!nul) return CND_ERR_OOB;
+        str = nul + 1;
+    }
+    
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
     program->bytecode = image + bc_offset;
-- 
2.43.0


From e2161da5fdf897762b2f384a5cd1335db2b39af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 20/38] fix: transfer byte arrays in the JSON binding

The callback accepted OP_RAW_BYTES without copying anything, so arrays of
uint8/int8 were encoded as zeroes and decoded as empty.
---
 src/cli/json_binding.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 96b178d..557a75a 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -268,7 +268,11 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     }
 
     // Handle Arrays
-    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_RAW_BYTES || type == OP_ARR_DYNAMIC) {
+    // Whole byte blocks are not supported: refusing them makes the VM transfer a byte
+    // array element by element
+    if (type == OP_RAW_BYTES) return CND_ERR_CALLBACK;
+
+    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_ARR_DYNAMIC) {
         return handle_array_start(io, ctx, type, key_name, current, ptr);
     }
     
-- 
2.43.0


From 1ea97dc2363075edcf8d9290256fca5db031d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 21/38] fix: look at the array element itself to choose hex
 output

The operands were skipped a second time, so --hex tested a byte past the
element instruction.
---
 src/cli/json_binding.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 557a75a..40c9b0e 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -33,11 +33,8 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
             const uint8_t* ip = ctx->program->bytecode + ctx->ip;
             const uint8_t* end = ctx->program->bytecode + ctx->program->bytecode_len;
             if (ip < end) {
-                // Skip current instruction args to find NEXT instruction
-                if (type == OP_ARR_FIXED) ip += 6; // Key(2) + Count(4)
-                else ip += 2; // Key(2) for ARR_PRE
-                
-                if (ip < end && *ip == OP_IO_U8) is_hex_array = true;
+                // ctx->ip is already past the array instruction, at its first element
+                if (*ip == OP_IO_U8) is_hex_array = true;
             }
         }
     }
-- 
2.43.0


From 1a431c74cdf0ff144e8fdcfcd3b4a3bf0a5ee7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 22/38] fix: keep the JSON array stack balanced for empty
 arrays

The VM reports no ARR_END for them; the frame stayed and every later field
went into the empty array.
---
 src/cli/json_binding.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 40c9b0e..e0bdeb4 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -51,6 +51,15 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
             return CND_ERR_OK; // Treat as empty/skip
         }
         
+        // Empty arrays have no ARR_END callback, so they must not leave a frame
+        if (cJSON_GetArraySize(item) == 0 && type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
+            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
+            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
+            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
+            return CND_ERR_OK;
+        }
+        if ((type == OP_ARR_FIXED || type == OP_ARR_DYNAMIC) && *(uint32_t*)ptr == 0) return CND_ERR_OK;
+
         // Push stack
         if (io->array_depth >= 31) return CND_ERR_OOB;
         io->array_stack[io->array_depth] = item;
@@ -68,6 +77,16 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
     } else { // DECODE
         if (io->array_depth >= 31) return CND_ERR_OOB;
         
+        uint32_t count;
+        if (type == OP_ARR_PRE_U8) count = *(uint8_t*)ptr;
+        else if (type == OP_ARR_PRE_U16) count = *(uint16_t*)ptr;
+        else count = *(uint32_t*)ptr;
+        if (count == 0) {
+            // Empty arrays have no ARR_END callback, so they must not leave a frame
+            cJSON_AddItemToObject(parent, key_name, is_hex_array ? cJSON_CreateString("") : cJSON_CreateArray());
+            return CND_ERR_OK;
+        }
+        
         cJSON* new_item;
         if (is_hex_array) {
             new_item = cJSON_CreateString(""); // Placeholder
-- 
2.43.0


From 4ff0bd969e3bc508d73a290f05afad4bf7e53ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 23/38] fix: bound the struct nesting of the JSON binding

ENTER_STRUCT wrote past stack[32] for deeper nesting.
---
 src/cli/json_binding.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index e0bdeb4..269ea4a 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -274,6 +274,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         }
         
         if (!item && ctx->mode == CND_MODE_ENCODE) return CND_ERR_CALLBACK;
+        if (io->depth >= 31) return CND_ERR_OOB;
         io->stack[++io->depth] = item;
         return CND_ERR_OK;
     }
-- 
2.43.0


From 42b6e1c36550bd7bf64cfb5e972517ca88a35982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 24/38] fix: read big-endian u32 string prefixes in the JSON
 binding

The length was always taken as little endian, reading far past the buffer.
---
 src/cli/json_binding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 269ea4a..8e1aabc 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -377,8 +377,8 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             }
             case OP_STR_PRE_U32: {
                 uint8_t* p = (uint8_t*)ptr-4;
-                uint32_t len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24;
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
+                uint32_t len = (ctx->endianness==CND_LE) ? (p[0] | p[1]<<8 | p[2]<<16 | (uint32_t)p[3]<<24) : ((uint32_t)p[0]<<24 | p[1]<<16 | p[2]<<8 | p[3]);
+                char* s = malloc((size_t)len+1); if (!s) return CND_ERR_CALLBACK; memcpy(s, ptr, len); s[len]=0;
                 val = cJSON_CreateString(s); free(s); break;
             }
             case OP_RAW_BYTES: break;
-- 
2.43.0


From ef3348d3c3ab7b668f9b3936ed1eded9ab04b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 25/38] fix: encode 32 and 64 bit JSON numbers beyond INT_MAX

valueint is clamped to int, so a uint32 above 2147483647 or a wide bitfield was
stored as 2147483647; out of range doubles were converted undefined.
---
 src/cli/json_binding.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 8e1aabc..93895f6 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -109,6 +109,22 @@ static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type,
     return CND_ERR_OK;
 }
 
+// cJSON clamps valueint to int; convert from the double, clamped to the target range
+static uint64_t json_to_u64(const cJSON* item) {
+    double v = item->valuedouble;
+    if (v >= 18446744073709551616.0) return UINT64_MAX;
+    if (v >= 9223372036854775808.0) return (uint64_t)v;
+    if (v >= -9223372036854775808.0) return (uint64_t)(int64_t)v;
+    return (uint64_t)INT64_MIN;
+}
+
+static int64_t json_to_i64(const cJSON* item) {
+    double v = item->valuedouble;
+    if (v >= 9223372036854775808.0) return INT64_MAX;
+    if (v >= -9223372036854775808.0) return (int64_t)v;
+    return INT64_MIN;
+}
+
 static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
     if (ctx->mode == CND_MODE_ENCODE) {
         if (!item) {
@@ -126,16 +142,16 @@ static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, vo
         switch (type) {
             case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)item->valueint; break;
             case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)item->valueint; break;
-            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)item->valueint; break;
-            case OP_IO_U64: *(uint64_t*)ptr = (uint64_t)item->valuedouble; break;
+            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)json_to_i64(item); break;
+            case OP_IO_U64: *(uint64_t*)ptr = json_to_u64(item); break;
             case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)item->valueint; break;
             case OP_IO_I16: *(int16_t*)ptr  = (int16_t)item->valueint; break;
             case OP_IO_I32: *(int32_t*)ptr  = (int32_t)item->valueint; break;
-            case OP_IO_I64: *(int64_t*)ptr  = (int64_t)item->valuedouble; break;
+            case OP_IO_I64: *(int64_t*)ptr  = json_to_i64(item); break;
             case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
             case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
-            case OP_IO_BIT_U: *(uint64_t*)ptr = (uint64_t)item->valueint; break;
-            case OP_IO_BIT_I: *(int64_t*)ptr  = (int64_t)item->valueint; break;
+            case OP_IO_BIT_U: *(uint64_t*)ptr = json_to_u64(item); break;
+            case OP_IO_BIT_I: *(int64_t*)ptr  = json_to_i64(item); break;
             case OP_IO_BOOL:
             case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
             case OP_STR_NULL: 
@@ -317,7 +333,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             return CND_ERR_CALLBACK;
         }
         if (cJSON_IsBool(item)) *(uint64_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
-        else *(uint64_t*)ptr = (uint64_t)item->valuedouble;
+        else *(uint64_t*)ptr = json_to_u64(item);
         return CND_ERR_OK;
     }
 
-- 
2.43.0


From 389c59f079bf76526fb1a9cb2a4a0abab44219e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 26/38] fix: load IL files in the CLI through the validating
 loader

The string table was walked without bounds.
---
 src/cli/cli_helpers.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..9c0661b 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -65,21 +65,19 @@ int load_il(const char* path, ILFile* il) {
         return 0;
     }
     
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
-    
-    if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
+    cnd_program program;
+    if (cnd_program_load_il(&program, il->raw_data, il->raw_len) != CND_ERR_OK) return 0;
 
+    il->str_count = program.string_count;
     il->string_table = malloc(il->str_count * sizeof(char*));
-    const char* ptr = (const char*)(il->raw_data + str_offset);
+    const char* ptr = program.string_table;
     for (int i = 0; i < il->str_count; i++) {
         il->string_table[i] = ptr;
         ptr += strlen(ptr) + 1;
     }
     
-    il->bytecode = il->raw_data + bc_offset;
-    il->bytecode_len = il->raw_len - bc_offset;
+    il->bytecode = program.bytecode;
+    il->bytecode_len = program.bytecode_len;
     
     return 1;
 }
-- 
2.43.0


From 27f98fbf752426c9c9ff48c194e2a7741be62abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 27/38] fix: emit IO_BIT_BOOL without a width operand

The VM takes none, so the stray width byte 0x01 was executed as
SET_ENDIAN_LE, flipping the byte order of the rest of the packet.
---
 src/compiler/cnd_parser.c | 5 ++++-
 src/compiler/cndc.c       | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..f6e2733 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1235,7 +1235,10 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 if (op == OP_IO_BIT_BOOL && bit_width != 1) { parser_error(p, "Bool bitfields are 1 bit wide"); return; }
+                 
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // BIT_BOOL has no width operand
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..8c86cb4 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -51,7 +51,7 @@ static void optimize_strings(Parser* p) {
         // Skip other arguments
         switch (op) {
             case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
+            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
             case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
             case OP_ARR_FIXED: offset += 4; break; // u32 count
             case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
@@ -177,7 +177,7 @@ static void optimize_strings(Parser* p) {
         // Skip other arguments (same as above)
         switch (op) {
             case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
+            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
             case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
             case OP_ARR_FIXED: offset += 4; break; // u32 count
             case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-- 
2.43.0


From f6542cecf722680b917d1d6a42fa112a944040d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 28/38] fix: renumber string IDs using the real instruction
 layout

optimize_strings mis-sized PUSH_IMM, TRANS_POLY, TRANS_SPLINE, SWITCH_TABLE and
RAW_BYTES and walked inline switch tables as code, so key IDs after them were
left stale and operand bytes could be rewritten as if they were keys.
---
 src/compiler/cndc.c    | 257 +++++++----------------------------------
 src/vm/cnd_il_layout.h |  20 ++++
 2 files changed, 61 insertions(+), 216 deletions(-)

diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 8c86cb4..00fc751 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -2,16 +2,45 @@
 #include <stdlib.h>
 #include <string.h>
 #include "cnd_internal.h"
+#include "../vm/cnd_il_layout.h"
+
+// Applies map to every key ID operand of the bytecode (map == NULL: only marks them
+// in used). Returns 0 if the bytecode could not be walked to its end.
+static int walk_keys(Buffer* b, size_t string_count, uint8_t* used, const uint16_t* map) {
+    uint8_t* bc = b->data;
+    size_t len = b->size;
+    uint8_t* is_table = calloc(len + 1, 1); // Inline switch tables are not instructions
+    size_t offset = 0;
+
+    while (is_table && offset < len) {
+        if (is_table[offset]) { offset++; continue; }
+
+        uint8_t op = bc[offset];
+        size_t instr_len, start, end;
+        if (cnd_il_instr_len(bc, len, offset, &instr_len) != CND_ERR_OK) break;
+        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            if (cnd_il_switch_table(bc, len, offset, &start, &end) != CND_ERR_OK) break;
+            memset(is_table + start, 1, end - start);
+        }
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
+        size_t key = cnd_il_key_offset(op);
+        int keys = (key == 0) ? 0 : (op == OP_ARR_DYNAMIC) ? 2 : 1;
+        for (int k = 0; k < keys; k++) {
+            uint8_t* id_ptr = bc + offset + key + 2 * k;
+            uint16_t id = (uint16_t)(id_ptr[0] | (id_ptr[1] << 8));
+            if (id >= string_count) continue;
+            if (map) {
+                id_ptr[0] = map[id] & 0xFF;
+                id_ptr[1] = (map[id] >> 8) & 0xFF;
+            } else {
+                used[id] = 1;
+            }
+        }
+        offset += instr_len;
     }
+
+    free(is_table);
+    return offset >= len;
 }
 
 static void optimize_strings(Parser* p) {
@@ -19,117 +48,9 @@ static void optimize_strings(Parser* p) {
 
     // 1. Mark used strings
     uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
-    uint8_t* bc = p->global_bc.data;
-    size_t len = p->global_bc.size;
-
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
+    if (!walk_keys(&p->global_bc, p->strtab.count, used, NULL)) {
+        free(used); // Keep the full table
+        return;
     }
 
     // 2. Build new string table and map
@@ -147,103 +68,7 @@ static void optimize_strings(Parser* p) {
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    walk_keys(&p->global_bc, p->strtab.count, NULL, map);
 
     // Replace string table
     for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
diff --git a/src/vm/cnd_il_layout.h b/src/vm/cnd_il_layout.h
index 7722fe0..fb6819c 100644
--- a/src/vm/cnd_il_layout.h
+++ b/src/vm/cnd_il_layout.h
@@ -104,6 +104,26 @@ static inline cnd_error_t cnd_il_instr_len(const uint8_t* bc, size_t len, size_t
     return CND_ERR_OK;
 }
 
+// Offset within the instruction of its key ID operand, 0 if it has none.
+// (ARR_DYNAMIC has a second one, the count reference, two bytes further on.)
+static inline size_t cnd_il_key_offset(uint8_t op) {
+    switch (op) {
+        case OP_ENTER_STRUCT: case OP_META_NAME:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
+        case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL:
+        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF: case OP_ARR_DYNAMIC: case OP_RAW_BYTES:
+        case OP_CONST_CHECK: case OP_SWITCH: case OP_SWITCH_TABLE:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            return 1;
+        default:
+            return 0;
+    }
+}
+
 // Locates the jump table of the SWITCH / SWITCH_TABLE instruction at bc[ip], which
 // must be complete (see cnd_il_instr_len). On success [*start, *end) is the table
 // as read by cnd_execute, and lies inside the bytecode.
-- 
2.43.0


From 191240b26d4c0e2743c4f66c2da4ff5963230131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 29/38] fix: prefix the keys of nested structs through the
 whole body

Remapping stopped at the first variable-length, optional or transform
instruction, took META_VERSION for a keyed instruction, left the count
reference of dynamic arrays unprefixed and passed a wrong length for long names.
---
 src/compiler/cnd_utils.c | 220 +++++++--------------------------------
 1 file changed, 37 insertions(+), 183 deletions(-)

diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..6907f00 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/cnd_il_layout.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,207 +28,60 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
+// ID of the name of key old_key with prefix and a dot put in front
+static uint16_t prefixed_key(uint16_t old_key, const char* prefix, int prefix_len, StringTable* strtab) {
+    const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
+    int old_len = (int)strlen(old_name);
     
-    switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
-            return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
-        default:
-            return -1; // Unknown/variable - can't process
+    char new_name[512];
+    if (prefix_len + 1 + old_len >= 512) {
+        // Fallback - just use old name
+        return strtab_add(strtab, old_name, old_len);
     }
+    memcpy(new_name, prefix, prefix_len);
+    new_name[prefix_len] = '.';
+    memcpy(new_name + prefix_len + 1, old_name, old_len);
+    return strtab_add(strtab, new_name, prefix_len + 1 + old_len);
 }
 
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab) {
+    uint8_t* is_table = calloc(len + 1, 1); // Inline switch tables are copied as they are
     size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
+    while (is_table && i < len) {
+        if (is_table[i]) {
+            buf_push(b, src[i++]);
+            continue;
+        }
         
-        if (instr_size < 0 || i + instr_size > len) {
+        uint8_t op = src[i];
+        size_t instr_size, start, end;
+        if (cnd_il_instr_len(src, len, i, &instr_size) != CND_ERR_OK) {
             // Unknown opcode or would overflow - just copy rest verbatim
             buf_append(b, src + i, len - i);
             break;
         }
+        if ((op == OP_SWITCH || op == OP_SWITCH_TABLE) && 
+            cnd_il_switch_table(src, len, i, &start, &end) == CND_ERR_OK) {
+            memset(is_table + start, 1, end - start);
+        }
         
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
-        } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
+        size_t key_offset = cnd_il_key_offset(op);
+        size_t copied = 0;
+        if (key_offset > 0) {
+            buf_append(b, src + i, key_offset);
+            copied = key_offset;
+            for (int k = 0; k < (op == OP_ARR_DYNAMIC ? 2 : 1); k++) {
+                uint16_t old_key = (uint16_t)(src[i + copied] | (src[i + copied + 1] << 8));
+                buf_push_u16(b, prefixed_key(old_key, prefix, prefix_len, strtab));
+                copied += 2;
             }
         }
-        
+        buf_append(b, src + i + copied, instr_size - copied);
         i += instr_size;
     }
+    free(is_table);
 }
 
 // --- Buffer Implementation ---
-- 
2.43.0


From 096baa1687f869e07953146dc685bda4a7d5fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 30/38] fix: do not mistake a count of 0xFFFFFFFF for an EOF
 array

A decoded prefix of 0xFFFFFFFF was accepted with however many elements the
data happened to hold instead of failing with CND_ERR_OOB.
---
 src/vm/vm_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index f6db13b..3c091fc 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1304,7 +1304,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
                 cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
                 frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
+                frame->remaining = 0; // Marks an EOF loop (counted loops always have some left)
                 break;
             }
 
@@ -1340,12 +1340,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->remaining == 0) {
                     // EOF Loop
                     if (ctx->cursor < ctx->data_len) loop_continue = true;
                 } else {
                     // Fixed/Prefixed Loop
-                    if (frame->remaining > 0) frame->remaining--;
+                    frame->remaining--;
                     if (frame->remaining > 0) loop_continue = true;
                 }
                 
-- 
2.43.0


From 4d53c904c33bceae685b0c7cfd3b2e40be46b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 31/38] fix: reject NaN in floating point range checks

Both comparisons are false for NaN, so it passed any range.
---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 3c091fc..c432562 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -334,7 +334,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; /* rejects NaN too */ \
     }
 
 // --- Loop Stack Helpers ---
-- 
2.43.0


From f92d213f952e5662b532eac812504d4e4ca13583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:08 +0000
Subject: [PATCH 32/38] fix: do not form pointers past the end of the bytecode
 when fetching operands

---
 src/vm/vm_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c432562..c45f609 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -768,9 +768,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U8
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
-    #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
-    #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
+    #define FETCH_IL_U16(c) ((end - pc >= 2) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
+    #define FETCH_IL_U32(c) ((end - pc >= 4) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
+    #define FETCH_IL_U64(c) ((end - pc >= 8) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
-- 
2.43.0


From b8c17d746f809ccd40ce90966c10770b069656d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 33/38] fix: start computed fields at a byte boundary

---
 src/vm/vm_exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c45f609..c944eeb 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -608,7 +608,8 @@ static const bool ALIGN_TABLE[256] = {
     1, // 0x4B ENUM_CHECK
     1, 1, 1, 1, // 0x4C - 0x4F
     // 0x50 - 0xFF (Control Flow & Others) - No alignment
-    0 // ... rest 0
+    // except computed fields, which are whole bytes like the primitives
+    [OP_EMIT] = 1
 };
 
 // --- Public API ---
-- 
2.43.0


From 85f8be9b619d4eb62289771eeb125581eb1576ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:45 +0000
Subject: [PATCH 34/38] fix: advance past 32-bit prefixed strings without
 wrapping

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c944eeb..1016136 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -488,7 +488,7 @@ static const char empty_string[8] = {0};
             } \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-            ctx->cursor += (size) + len_val; \
+            ctx->cursor += (size_t)(size) + len_val; \
         } \
         ctx->is_next_optional = false; \
         break; \
-- 
2.43.0


From ae2e71758d95ce773c34d9870826c72e9059147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 35/38] hooks: mark loops that carry invariants (guarded by
 CND_CONTRACTS)

---
 src/vm/vm_exec.c     | 35 +++++++++++++++++++++--------------
 src/vm/vm_internal.h |  9 ++++++---
 src/vm/vm_verify.c   |  6 +++---
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1016136..bcc57a7 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -21,7 +21,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
         uint64_t tmp;
         memcpy(&tmp, ctx->trans_poly_data + (ctx->trans_poly_count - 1) * 8, 8);
         memcpy(&y, &tmp, 8);
-        for (int i = ctx->trans_poly_count - 2; i >= 0; i--) {
+        for (int i = ctx->trans_poly_count - 2; i >= 0; i--) CND_LOOP(poly_eval) {
             double c;
             memcpy(&tmp, ctx->trans_poly_data + i * 8, 8);
             memcpy(&c, &tmp, 8);
@@ -40,7 +40,7 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
             uint64_t tmp;
             memcpy(&tmp, ctx->trans_poly_data + (ctx->trans_poly_count - 1) * 8, 8);
             memcpy(&y, &tmp, 8);
-            for (int i = ctx->trans_poly_count - 2; i >= 0; i--) {
+            for (int i = ctx->trans_poly_count - 2; i >= 0; i--) CND_LOOP(poly_solve) {
                 double c;
                 memcpy(&tmp, ctx->trans_poly_data + i * 8, 8);
                 memcpy(&c, &tmp, 8);
@@ -59,7 +59,7 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
 static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
     double y = 0;
     if (ctx->trans_spline_count >= 2) {
-        for (int i = 0; i < ctx->trans_spline_count - 1; i++) {
+        for (int i = 0; i < ctx->trans_spline_count - 1; i++) CND_LOOP(spline_eval) {
             double x0, y0, x1, y1;
             uint64_t tmp;
             memcpy(&tmp, ctx->trans_spline_data + (i * 2) * 8, 8); memcpy(&x0, &tmp, 8);
@@ -79,7 +79,7 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
 static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
     if (ctx->trans_spline_count >= 2) {
-        for (int i = 0; i < ctx->trans_spline_count - 1; i++) {
+        for (int i = 0; i < ctx->trans_spline_count - 1; i++) CND_LOOP(spline_solve) {
             double x0, y0, x1, y1;
             uint64_t tmp;
             memcpy(&tmp, ctx->trans_spline_data + (i * 2) * 8, 8); memcpy(&x0, &tmp, 8);
@@ -349,7 +349,7 @@ static void skip_loop_body(cnd_vm_ctx* ctx) {
     size_t table_end[CND_MAX_LOOP_DEPTH];
     int tables = 0;
     int depth = 1;
-    while (ctx->ip < len && depth > 0) {
+    while (ctx->ip < len && depth > 0) CND_LOOP(skip_body) {
         if (tables > 0 && ctx->ip == table_start[tables - 1]) {
             ctx->ip = table_end[--tables];
             continue;
@@ -550,7 +550,8 @@ static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
         uint32_t crc = reflect(init, 32); // The table works on the reflected register
-        for (size_t i = 0; i < len; i++) {
+        for (size_t i = 0; i < len; i++) CND_LOOP(crc_table) {
+            CND_STEP(crc_table)
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
         return crc ^ xorout;
@@ -561,7 +562,8 @@ static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_
     bool refout = flags & 2;
     uint32_t mask = (width == 32) ? 0xFFFFFFFF : 0xFFFF;
 
-    for (size_t i = 0; i < len; i++) {
+    for (size_t i = 0; i < len; i++) CND_LOOP(crc_bitwise) {
+        CND_STEP(crc_bitwise)
         uint8_t octet = data[i];
         if (refin) octet = (uint8_t)reflect(octet, 8);
         
@@ -638,7 +640,8 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     
     // Key lookups walk the table string by string: all of them have to be terminated
     const uint8_t* str = image + str_offset;
-    for (uint16_t i = 0; i < str_count; i++) {
+    for (uint16_t i = 0; i < str_count; i++) CND_LOOP(load_strings) {
+        CND_STEP(load_strings)
         const uint8_t* nul = memchr(str, 0, (size_t)(image + len - str));
         if (!nul) return CND_ERR_OOB;
         str = nul + 1;
@@ -656,8 +659,9 @@ const char* cnd_get_key_name(const cnd_program* program, uint16_t key_id) {
     if (!program || !program->string_table || key_id >= program->string_count) return NULL;
     
     const char* ptr = program->string_table;
-    for (uint16_t i = 0; i < key_id; i++) {
-        while (*ptr) ptr++; // Skip current string
+    for (uint16_t i = 0; i < key_id; i++) CND_LOOP(key_name) {
+        CND_STEP(key_name)
+        while (*ptr) CND_LOOP(key_name_skip) ptr++; // Skip current string
         ptr++; // Skip null terminator
     }
     return ptr;
@@ -667,9 +671,10 @@ uint16_t cnd_get_key_id(const cnd_program* program, const char* name) {
     if (!program || !program->string_table || !name) return 0xFFFF;
     
     const char* ptr = program->string_table;
-    for (uint16_t i = 0; i < program->string_count; i++) {
+    for (uint16_t i = 0; i < program->string_count; i++) CND_LOOP(key_id) {
+        CND_STEP(key_id)
         if (strcmp(ptr, name) == 0) return i;
-        while (*ptr) ptr++; // Skip current string
+        while (*ptr) CND_LOOP(key_id_skip) ptr++; // Skip current string
         ptr++; // Skip null terminator
     }
     return 0xFFFF;
@@ -890,7 +895,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
                     ctype actual = (READ_EXPR); \
-                    for (uint16_t i = 0; i < count; i++) { \
+                    for (uint16_t i = 0; i < count; i++) CND_LOOP(enum_check) { \
+                        CND_STEP(enum_check) \
                         ctype val = 0; \
                         if (size == 1) val = (ctype)FETCH_IL_U8(ctx); \
                         else if (size == 2) val = (ctype)FETCH_IL_U16(ctx); \
@@ -1411,7 +1417,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 int32_t target_off = default_off;
                 bool found = false;
                 
-                for (uint16_t i = 0; i < count; i++) {
+                for (uint16_t i = 0; i < count; i++) CND_LOOP(switch_cases) {
+                    CND_STEP(switch_cases)
                     uint64_t case_val = read_il_u64(ctx);
                     int32_t case_off = (int32_t)read_il_u32(ctx);
                     
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 4a26e3d..be53978 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -5,11 +5,14 @@
 
 // Fetches the opcode at pc and advances past it. With CND_CONTRACTS defined
 // (verification builds only) the contract harness supplies its own definition,
-// which observes the VM state at every instruction boundary.
+// which observes the VM state at every instruction boundary, and the invariants of
+// the loops marked CND_LOOP (CND_STEP: ghost code at the start of the loop body).
 #ifdef CND_CONTRACTS
 #include "cnd_contracts.h"
 #else
 #define CND_FETCH_OP(ctx, pc) (*(pc)++)
+#define CND_LOOP(name)
+#define CND_STEP(name)
 #endif
 
 // --- IL Access ---
@@ -122,7 +125,7 @@ static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     }
 
     uint64_t val = 0;
-    for (uint8_t i = 0; i < count; i++) {
+    for (uint8_t i = 0; i < count; i++) CND_LOOP(read_bits) {
         if (ctx->cursor >= ctx->data_len) break; 
 
         uint8_t current_byte = ctx->data_buffer[ctx->cursor];
@@ -213,7 +216,7 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
         }
     }
 
-    for (uint8_t i = 0; i < count; i++) {
+    for (uint8_t i = 0; i < count; i++) CND_LOOP(write_bits) {
         if (ctx->cursor >= ctx->data_len) return; 
 
         uint8_t bit;
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 11202df..9376a79 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -33,9 +33,9 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
     size_t table_end[CND_VERIFY_MAX_TABLES];
     int tables = 0;
 
-    while (ip < len) {
+    while (ip < len) CND_LOOP(verify_walk) {
         int t = 0;
-        while (t < tables && table_start[t] != ip) t++;
+        while (t < tables && table_start[t] != ip) CND_LOOP(verify_tables) t++;
         if (t < tables) {
             ip = table_end[t];
             tables--;
@@ -62,7 +62,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
             size_t def = (opcode == OP_SWITCH) ? start + 2 : start + 16;
 
             if (!verify_target(body, verify_u32(bc + def), len)) return CND_ERR_OOB;
-            for (size_t entry = first; entry < end; entry += stride) {
+            for (size_t entry = first; entry < end; entry += stride) CND_LOOP(verify_targets) {
                 if (!verify_target(body, verify_u32(bc + entry), len)) return CND_ERR_OOB;
             }
 
-- 
2.43.0


From 20911d20fcfaa1d6ff4f29a8698c57e50a2c80bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 36/38] hooks: invariant markers for compiler loops, ghost
 steps in helper loops (guarded by CND_CONTRACTS)

---
 src/compiler/cnd_internal.h |  8 ++++++++
 src/compiler/cnd_utils.c    | 17 +++++++++++------
 src/compiler/cndc.c         |  3 ++-
 src/vm/vm_exec.c            |  7 ++++++-
 src/vm/vm_verify.c          |  2 ++
 5 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..d526308 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -9,6 +9,14 @@
 #include "concordia.h"
 #include "compiler.h"
 
+// Loop invariants and ghost code of the verification builds (see vm_internal.h)
+#ifdef CND_CONTRACTS
+#include "cnd_contracts.h"
+#else
+#define CND_LOOP(name)
+#define CND_STEP(name)
+#endif
+
 #ifdef _WIN32
 #define strdup _strdup
 #endif
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 6907f00..ee9aac9 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -49,7 +49,8 @@ void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len,
                             const char* prefix, int prefix_len, StringTable* strtab) {
     uint8_t* is_table = calloc(len + 1, 1); // Inline switch tables are copied as they are
     size_t i = 0;
-    while (is_table && i < len) {
+    while (is_table && i < len) CND_LOOP(prefix_walk) {
+        CND_STEP(prefix_walk)
         if (is_table[i]) {
             buf_push(b, src[i++]);
             continue;
@@ -162,7 +163,7 @@ void strtab_init(StringTable* t) {
 }
 
 uint16_t strtab_add(StringTable* t, const char* start, int len) {
-    for (size_t i = 0; i < t->count; i++) {
+    for (size_t i = 0; i < t->count; i++) CND_LOOP(strtab_add) {
         if (strlen(t->strings[i]) == (size_t)len && strncmp(t->strings[i], start, len) == 0) {
             return (uint16_t)i;
         }
@@ -298,11 +299,13 @@ uint32_t parse_number_u32(const char* start, int length) {
     uint32_t res = 0;
     // Handle hex
     if (length > 2 && start[0] == '0' && (start[1] == 'x' || start[1] == 'X')) {
-        for (int i = 2; i < length; i++) {
+        for (int i = 2; i < length; i++) CND_LOOP(hex32) {
+            CND_STEP(hex32)
             res = (res << 4) | hex_char_to_int(start[i]);
         }
     } else {
-        for (int i = 0; i < length; i++) {
+        for (int i = 0; i < length; i++) CND_LOOP(dec32) {
+            CND_STEP(dec32)
             if (start[i] >= '0' && start[i] <= '9') {
                 res = res * 10 + (start[i] - '0');
             }
@@ -327,11 +330,13 @@ int64_t parse_number_i64(const char* start, int length) {
     uint64_t res = 0;
     if (end - s > 2 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) {
         s += 2;
-        while (s < end) {
+        while (s < end) CND_LOOP(hex64) {
+            CND_STEP(hex64)
             res = (res << 4) | hex_char_to_int(*s++);
         }
     } else {
-        while (s < end) {
+        while (s < end) CND_LOOP(dec64) {
+            CND_STEP(dec64)
             char c = *s++;
             if (c >= '0' && c <= '9') {
                 res = res * 10 + (c - '0');
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 00fc751..f05df25 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -12,7 +12,8 @@ static int walk_keys(Buffer* b, size_t string_count, uint8_t* used, const uint16
     uint8_t* is_table = calloc(len + 1, 1); // Inline switch tables are not instructions
     size_t offset = 0;
 
-    while (is_table && offset < len) {
+    while (is_table && offset < len) CND_LOOP(walk_keys) {
+        CND_STEP(walk_keys)
         if (is_table[offset]) { offset++; continue; }
 
         uint8_t op = bc[offset];
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index bcc57a7..c9216ae 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -22,6 +22,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
         memcpy(&tmp, ctx->trans_poly_data + (ctx->trans_poly_count - 1) * 8, 8);
         memcpy(&y, &tmp, 8);
         for (int i = ctx->trans_poly_count - 2; i >= 0; i--) CND_LOOP(poly_eval) {
+            CND_STEP(poly_eval)
             double c;
             memcpy(&tmp, ctx->trans_poly_data + i * 8, 8);
             memcpy(&c, &tmp, 8);
@@ -33,7 +34,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
 
 static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
-    for(int iter=0; iter<20; iter++) {
+    for(int iter=0; iter<20; iter++) CND_LOOP(poly_newton) {
         double y = 0;
         double dy = 0;
         if (ctx->trans_poly_count > 0) {
@@ -41,6 +42,7 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
             memcpy(&tmp, ctx->trans_poly_data + (ctx->trans_poly_count - 1) * 8, 8);
             memcpy(&y, &tmp, 8);
             for (int i = ctx->trans_poly_count - 2; i >= 0; i--) CND_LOOP(poly_solve) {
+                CND_STEP(poly_solve)
                 double c;
                 memcpy(&tmp, ctx->trans_poly_data + i * 8, 8);
                 memcpy(&c, &tmp, 8);
@@ -60,6 +62,7 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
     double y = 0;
     if (ctx->trans_spline_count >= 2) {
         for (int i = 0; i < ctx->trans_spline_count - 1; i++) CND_LOOP(spline_eval) {
+            CND_STEP(spline_eval)
             double x0, y0, x1, y1;
             uint64_t tmp;
             memcpy(&tmp, ctx->trans_spline_data + (i * 2) * 8, 8); memcpy(&x0, &tmp, 8);
@@ -80,6 +83,7 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
     if (ctx->trans_spline_count >= 2) {
         for (int i = 0; i < ctx->trans_spline_count - 1; i++) CND_LOOP(spline_solve) {
+            CND_STEP(spline_solve)
             double x0, y0, x1, y1;
             uint64_t tmp;
             memcpy(&tmp, ctx->trans_spline_data + (i * 2) * 8, 8); memcpy(&x0, &tmp, 8);
@@ -350,6 +354,7 @@ static void skip_loop_body(cnd_vm_ctx* ctx) {
     int tables = 0;
     int depth = 1;
     while (ctx->ip < len && depth > 0) CND_LOOP(skip_body) {
+        CND_STEP(skip_body)
         if (tables > 0 && ctx->ip == table_start[tables - 1]) {
             ctx->ip = table_end[--tables];
             continue;
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 9376a79..ea4c720 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -34,6 +34,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
     int tables = 0;
 
     while (ip < len) CND_LOOP(verify_walk) {
+        CND_STEP(verify_walk)
         int t = 0;
         while (t < tables && table_start[t] != ip) CND_LOOP(verify_tables) t++;
         if (t < tables) {
@@ -63,6 +64,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
 
             if (!verify_target(body, verify_u32(bc + def), len)) return CND_ERR_OOB;
             for (size_t entry = first; entry < end; entry += stride) CND_LOOP(verify_targets) {
+                CND_STEP(verify_targets)
                 if (!verify_target(body, verify_u32(bc + entry), len)) return CND_ERR_OOB;
             }
 
-- 
2.43.0


From 850d732e818a928f26b97fb3e59b3aa9803a7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 37/38] fix: parse the most negative integer literal without
 overflow

---
 src/compiler/cnd_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index ee9aac9..8813934 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -344,7 +344,7 @@ int64_t parse_number_i64(const char* start, int length) {
         }
     }
     
-    return neg ? -(int64_t)res : (int64_t)res;
+    return (int64_t)(neg ? 0 - res : res); // The most negative value has no positive counterpart
 }
 
 double parse_number_double(const char* start, int length) {
-- 
2.43.0


From 1d85c80e9be5d5d1be1e1c986a3bfd048ad851b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:57 +0000
Subject: [PATCH 38/38] hooks: mark the loops of the string table optimisation
 (guarded by CND_CONTRACTS)

---
 src/compiler/cndc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index f05df25..019bcbd 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -59,7 +59,7 @@ static void optimize_strings(Parser* p) {
     StringTable new_tab;
     strtab_init(&new_tab);
 
-    for (size_t i = 0; i < p->strtab.count; i++) {
+    for (size_t i = 0; i < p->strtab.count; i++) CND_LOOP(optimize_map) {
         if (used[i]) {
             uint16_t new_id = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
             map[i] = new_id;
@@ -72,7 +72,7 @@ static void optimize_strings(Parser* p) {
     walk_keys(&p->global_bc, p->strtab.count, NULL, map);
 
     // Replace string table
-    for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
+    for(size_t i=0; i<p->strtab.count; i++) CND_LOOP(optimize_free) free(p->strtab.strings[i]);
     free(p->strtab.strings);
     p->strtab = new_tab;
 
-- 
2.43.0

