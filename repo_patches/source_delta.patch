From 8c858a6c0b4e12f52a2224208ee6e33dc910c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 01/47] fix: assemble 32-bit words from bytes without shifting
 into the sign bit

---
 src/vm/vm_exec.c     | 10 +++++-----
 src/vm/vm_internal.h | 13 ++++++-------
 src/vm/vm_verify.c   | 14 +++++++-------
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..ce5c16c 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -430,7 +430,7 @@ static int64_t sign_extend(uint64_t val, uint8_t bits) {
 static uint32_t reflect(uint32_t val, int bits) {
     uint32_t res = 0;
     for (int i = 0; i < bits; i++) {
-        if (val & (1 << i)) res |= (1 << (bits - 1 - i));
+        if (val & (1u << i)) res |= (1u << (bits - 1 - i));
     }
     return res;
 }
@@ -496,7 +496,7 @@ static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_
                 else crc = (crc << 1) & 0xFFFF;
             }
         } else { // 32
-            crc ^= (uint32_t)(octet << 24);
+            crc ^= (uint32_t)octet << 24;
             for (int j = 0; j < 8; j++) {
                 if (crc & 0x80000000) crc = (crc << 1) ^ poly;
                 else crc <<= 1;
@@ -554,8 +554,8 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     if (image[5] != 1) return CND_ERR_INVALID_OP; // Version check
 
     uint16_t str_count = image[6] | (image[7] << 8);
-    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | (image[11] << 24);
-    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | (image[15] << 24);
+    uint32_t str_offset = read_u32(image + 8, CND_LE);
+    uint32_t bc_offset = read_u32(image + 12, CND_LE);
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
@@ -679,7 +679,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
     #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | (pc[-1] << 24))) : 0)
+    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, ((uint32_t)pc[-4] | ((uint32_t)pc[-3] << 8) | ((uint32_t)pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
     #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..9ed7d73 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -21,10 +21,9 @@ static inline uint8_t read_il_u8(cnd_vm_ctx* ctx) {
 
 static inline uint32_t read_il_u32(cnd_vm_ctx* ctx) {
     if (ctx->ip + 4 > ctx->program->bytecode_len) return 0;
-    uint32_t val = ctx->program->bytecode[ctx->ip] | 
-                   (ctx->program->bytecode[ctx->ip + 1] << 8) | 
-                   (ctx->program->bytecode[ctx->ip + 2] << 16) | 
-                   (ctx->program->bytecode[ctx->ip + 3] << 24);
+    const uint8_t* b = &ctx->program->bytecode[ctx->ip];
+    uint32_t val = (uint32_t)b[0] | ((uint32_t)b[1] << 8) | 
+                   ((uint32_t)b[2] << 16) | ((uint32_t)b[3] << 24);
     ctx->ip += 4;
     return val;
 }
@@ -47,7 +46,7 @@ static inline uint64_t read_il_u64(cnd_vm_ctx* ctx) {
 static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     if (idx + 4 > ctx->program->bytecode_len) return 0;
     const uint8_t* b = ctx->program->bytecode + idx;
-    return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+    return (uint32_t)b[0] | ((uint32_t)b[1] << 8) | ((uint32_t)b[2] << 16) | ((uint32_t)b[3] << 24);
 }
 
 // --- Data Access (Read) ---
@@ -66,9 +65,9 @@ static inline uint16_t read_u16(const uint8_t* buf, cnd_endian_t endian) {
 
 static inline uint32_t read_u32(const uint8_t* buf, cnd_endian_t endian) {
     if (endian == CND_LE) {
-        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24);
+        return (uint32_t)buf[0] | ((uint32_t)buf[1] << 8) | ((uint32_t)buf[2] << 16) | ((uint32_t)buf[3] << 24);
     } else {
-        return (buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
+        return ((uint32_t)buf[0] << 24) | ((uint32_t)buf[1] << 16) | ((uint32_t)buf[2] << 8) | (uint32_t)buf[3];
     }
 }
 
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..e554a7f 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -171,7 +171,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 if (ip + 7 > len) return CND_ERR_OOB;
                 // 1 (op) + 2 (key) + 4 (table_offset)
                 const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
+                uint32_t table_rel = read_u32(off_ptr, CND_LE);
                 
                 size_t table_start = (ip + 7) + table_rel;
                 
@@ -190,7 +190,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 // Check offsets
                 // Default offset
                 const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
+                int32_t def_off = (int32_t)read_u32(def_ptr, CND_LE);
                 
                 // Target relative to code_start_ip (ip + 7)
                 int64_t target = (int64_t)(ip + 7) + def_off;
@@ -199,7 +199,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 // Case offsets
                 for (uint16_t i = 0; i < count; i++) {
                     const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
+                    int32_t off = (int32_t)read_u32(case_ptr, CND_LE);
                     target = (int64_t)(ip + 7) + off;
                     if (target < 0 || target >= len) return CND_ERR_OOB;
                 }
@@ -212,7 +212,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 if (ip + 7 > len) return CND_ERR_OOB;
                 // 1 (op) + 2 (key) + 4 (table_offset)
                 const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
+                uint32_t table_rel = read_u32(off_ptr, CND_LE);
                 
                 size_t table_start = (ip + 7) + table_rel;
                 
@@ -240,14 +240,14 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
                 
                 // Check default offset
                 const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
+                int32_t def_off = (int32_t)read_u32(def_ptr, CND_LE);
                 int64_t target = (int64_t)(ip + 7) + def_off;
                 if (target < 0 || target >= len) return CND_ERR_OOB;
                 
                 // Check table offsets
                 for (uint64_t i = 0; i < count; i++) {
                     const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
+                    int32_t off = (int32_t)read_u32(entry_ptr, CND_LE);
                     target = (int64_t)(ip + 7) + off;
                     if (target < 0 || target >= len) return CND_ERR_OOB;
                 }
@@ -268,7 +268,7 @@ cnd_error_t cnd_verify_program(const cnd_program* program)
         // Additional checks for JMP
         if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
             const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
+            int32_t offset = (int32_t)read_u32(ptr, CND_LE);
             
             int64_t target = (int64_t)ip + 5 + offset;
             if (target < 0 || target >= len) {
-- 
2.43.0


From 69eb53f04746c05732d6f0646e274284068aaec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 02/47] fix: define negation, wide shifts and float-to-int
 conversion in the expression ALU

---
 src/vm/vm_exec.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ce5c16c..ee17923 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -638,6 +638,12 @@ static inline cnd_error_t stack_pop(cnd_vm_ctx* ctx, uint64_t* val) {
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
     if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
 
+// Helper for shifts (a shift by 64 or more is undefined in C)
+#define SHIFT_OP(OP) \
+    uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    if (stack_push(ctx, b < 64 ? a OP b : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+
 // Helper for unary operations
 #define UNARY_OP(OP) \
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
@@ -1561,8 +1567,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_NEG: {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
-                // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                // 0 - a: two's complement negation without signed overflow
+                if (stack_push(ctx, 0 - a) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1632,6 +1638,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                if (!(f >= -9223372036854775808.0 && f < 9223372036854775808.0)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
@@ -1650,8 +1657,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            // Shifting by the word width or more shifts every bit out
+            case OP_SHL:     { SHIFT_OP(<<); break; }
+            case OP_SHR:     { SHIFT_OP(>>); break; }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From 64c3cccb4c88bbb4b53c504aa417bc6431a6b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 03/47] fix: implement OP_SWAP

---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ee17923..e416c4f 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1426,6 +1426,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_EMIT: {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
-- 
2.43.0


From a0dc3eb6b4217e87ef876d8713c499c49caf47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 04/47] fix: integer transforms wrap instead of overflowing or
 trapping on INT64_MIN / -1

---
 src/vm/vm_exec.c | 53 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index e416c4f..72f8fb2 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -95,22 +95,36 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+static inline bool vm_f64_fits_i64(double v) {
+    return v >= -9223372036854775808.0 && v < 9223372036854775808.0; // false for NaN
+}
+
+// Integer transforms wrap like the 64-bit words they work on; dividing by -1
+// is a negation, because INT64_MIN / -1 does not fit.
+static inline int64_t vm_math_int_div(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return (int64_t)(0 - (uint64_t)a);
+    return a / b;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
+    uint64_t r = (uint64_t)raw, v = (uint64_t)ctx->trans_i_val;
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return (int64_t)(r + v);
+        case CND_TRANS_SUB_I64: return (int64_t)(r - v);
+        case CND_TRANS_MUL_I64: return (int64_t)(r * v);
+        case CND_TRANS_DIV_I64: return vm_math_int_div(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
+    uint64_t e = (uint64_t)eng, v = (uint64_t)ctx->trans_i_val;
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return (int64_t)(e - v);
+        case CND_TRANS_SUB_I64: return (int64_t)(e + v);
+        case CND_TRANS_MUL_I64: return vm_math_int_div(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return (int64_t)(e * v);
         default: return eng;
     }
 }
@@ -236,27 +250,12 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  ctype val = (ctype)raw64; \
+                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  if (!vm_f64_fits_i64((double)val)) return CND_ERR_ARITHMETIC; \
+                  eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -1646,7 +1645,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
-                if (!(f >= -9223372036854775808.0 && f < 9223372036854775808.0)) return CND_ERR_ARITHMETIC;
+                if (!vm_f64_fits_i64(f)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
-- 
2.43.0


From 0ad565befcdd4d79ac673336192b8c768b6fd429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 05/47] fix: round scaled values to the nearest raw integer and
 reject ones that do not fit

---
 src/vm/vm_exec.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 72f8fb2..b1f5155 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -99,6 +99,21 @@ static inline bool vm_f64_fits_i64(double v) {
     return v >= -9223372036854775808.0 && v < 9223372036854775808.0; // false for NaN
 }
 
+// Nearest integer, halves away from zero. From 2^52 on every double is integral.
+static inline double vm_math_round(double v) {
+    if (!(v > -4503599627370496.0 && v < 4503599627370496.0)) return v;
+    double t = (double)(int64_t)v;
+    if (v - t >= 0.5) t += 1.0;
+    else if (v - t <= -0.5) t -= 1.0;
+    return t;
+}
+
+// Does the integral value v fit a `size`-byte integer? False for NaN.
+static inline bool vm_f64_fits_int(double v, int size, bool is_signed) {
+    double half = (double)(1ULL << (size * 8 - 1));
+    return is_signed ? (v >= -half && v < half) : (v >= 0.0 && v < half * 2.0);
+}
+
 // Integer transforms wrap like the 64-bit words they work on; dividing by -1
 // is a negation, because INT64_MIN / -1 does not fit.
 static inline int64_t vm_math_int_div(int64_t a, int64_t b) {
@@ -153,7 +168,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  double raw_val = vm_math_round((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  if (!vm_f64_fits_int(raw_val, (size), (ctype)-1 < (ctype)1)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -166,7 +183,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  double raw_val = vm_math_round(vm_math_poly_solve(ctx, eng_val)); \
+                  if (!vm_f64_fits_int(raw_val, (size), (ctype)-1 < (ctype)1)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -179,7 +198,9 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  double raw_val = vm_math_round(vm_math_spline_solve(ctx, eng_val)); \
+                  if (!vm_f64_fits_int(raw_val, (size), (ctype)-1 < (ctype)1)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
-- 
2.43.0


From ecf2915c191a9886785b77cf7f7e47b0824e9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 06/47] fix: apply @poly and @spline to floating point fields;
 NaN is outside every range

---
 src/vm/vm_exec.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index b1f5155..e7b44be 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -99,6 +99,24 @@ static inline bool vm_f64_fits_i64(double v) {
     return v >= -9223372036854775808.0 && v < 9223372036854775808.0; // false for NaN
 }
 
+// Transforms whose engineering value is a double (the others use int64_t)
+static inline bool vm_trans_is_f64(const cnd_vm_ctx* ctx) {
+    return ctx->trans_type == CND_TRANS_SCALE_F64 ||
+           ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE;
+}
+
+static inline double vm_math_f64_to_eng(cnd_vm_ctx* ctx, double raw) {
+    if (ctx->trans_type == CND_TRANS_POLY) return vm_math_poly_eval(ctx, raw);
+    if (ctx->trans_type == CND_TRANS_SPLINE) return vm_math_spline_eval(ctx, raw);
+    return raw * ctx->trans_f_factor + ctx->trans_f_offset;
+}
+
+static inline double vm_math_f64_to_raw(cnd_vm_ctx* ctx, double eng) {
+    if (ctx->trans_type == CND_TRANS_POLY) return vm_math_poly_solve(ctx, eng);
+    if (ctx->trans_type == CND_TRANS_SPLINE) return vm_math_spline_solve(ctx, eng);
+    return (eng - ctx->trans_f_offset) / ctx->trans_f_factor;
+}
+
 // Nearest integer, halves away from zero. From 2^52 on every double is integral.
 static inline double vm_math_round(double v) {
     if (!(v > -4503599627370496.0 && v < 4503599627370496.0)) return v;
@@ -253,16 +271,16 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           return CND_ERR_OOB; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
-          if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
+          if (vm_trans_is_f64(ctx)) { \
               double eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  ctype val = (ctype)vm_math_f64_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  eng_val = (double)val * ctx->trans_f_factor + ctx->trans_f_offset; \
+                  eng_val = vm_math_f64_to_eng(ctx, (double)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -318,7 +336,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; /* also rejects NaN */ \
     }
 
 // --- Loop Stack Helpers ---
-- 
2.43.0


From 582de6d5b625c559a96333029dbac9687f5360ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 07/47] fix: bit fields and padding past the end of the buffer
 are out of bounds

---
 src/vm/vm_exec.c     | 12 +++++++++++-
 src/vm/vm_internal.h | 10 ++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index e7b44be..206e1aa 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -339,6 +339,13 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; /* also rejects NaN */ \
     }
 
+// Bit fields are 1 to 64 bits wide and lie inside the buffer
+#define CHECK_BIT_WIDTH(bits) \
+    { \
+        if ((bits) < 1 || (bits) > 64) return CND_ERR_INVALID_OP; \
+        if (!bits_available(ctx, (bits))) return CND_ERR_OOB; \
+    }
+
 // --- Loop Stack Helpers ---
 
 static void skip_loop_body(cnd_vm_ctx* ctx) {
@@ -1021,7 +1028,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; CHECK_BIT_WIDTH(b); if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1053,6 +1060,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                CHECK_BIT_WIDTH(b);
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1068,6 +1076,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                CHECK_BIT_WIDTH(1);
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1083,6 +1092,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_bits(ctx, 0, b);
                 } else {
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 9ed7d73..d49dc39 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -93,6 +93,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// Do the next `count` bits lie inside the data buffer?
+static inline bool bits_available(const cnd_vm_ctx* ctx, uint8_t count) {
+    size_t bytes = ((size_t)ctx->bit_offset + count + 7) / 8;
+    return ctx->cursor <= ctx->data_len && bytes <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
@@ -205,11 +211,11 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
 
         if (ctx->endianness == CND_BE) {
             // BE: Write MSB of val first to MSB of stream
-            bit = (val >> (count - 1 - i)) & 1;
+            bit = (count - 1 - i < 64) ? (val >> (count - 1 - i)) & 1 : 0;
             mask = 1 << (7 - ctx->bit_offset);
         } else {
             // LE: Write LSB of val first to LSB of stream
-            bit = (val >> i) & 1;
+            bit = (i < 64) ? (val >> i) & 1 : 0;
             mask = 1 << ctx->bit_offset;
         }
 
-- 
2.43.0


From c4652e2f905dfd91f9682637fcab40f9dbd82d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 08/47] fix: bound polynomial, spline and enum operands before
 using them

---
 src/vm/vm_exec.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 206e1aa..9da032a 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -729,9 +729,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U8
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
-    #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, ((uint32_t)pc[-4] | ((uint32_t)pc[-3] << 8) | ((uint32_t)pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
-    #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
+    #define FETCH_IL_U16(c) ((end - pc >= 2) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
+    #define FETCH_IL_U32(c) ((end - pc >= 4) ? (pc += 4, ((uint32_t)pc[-4] | ((uint32_t)pc[-3] << 8) | ((uint32_t)pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
+    #define FETCH_IL_U64(c) ((end - pc >= 8) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
@@ -845,6 +845,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 bool found = false;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
+                    if (ctx->cursor < (size) || (size_t)(end - pc) < (size_t)count * (size)) return CND_ERR_OOB; \
                     ctype actual = (READ_EXPR); \
                     for (uint16_t i = 0; i < count; i++) { \
                         ctype val = 0; \
@@ -960,8 +961,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_POLY;
                 ctx->trans_poly_count = count;
                 ctx->trans_poly_data = pc;
-                pc += (count * 8);
-                if (pc > end) return CND_ERR_OOB;
+                if ((size_t)(end - pc) < (size_t)count * 8) return CND_ERR_OOB;
+                pc += (size_t)count * 8;
                 break;
             }
 
@@ -970,8 +971,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 ctx->trans_type = CND_TRANS_SPLINE;
                 ctx->trans_spline_count = count;
                 ctx->trans_spline_data = pc;
-                pc += (count * 2 * 8); // 2 doubles per point
-                if (pc > end) return CND_ERR_OOB;
+                if ((size_t)(end - pc) < (size_t)count * 16) return CND_ERR_OOB;
+                pc += (size_t)count * 16; // 2 doubles per point
                 break;
             }
 
-- 
2.43.0


From ed692d64d65b24fc201a13b96c52e0778a02a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 09/47] fix: a terminated string without terminator is an
 error, not a skipped byte

---
 src/vm/vm_exec.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 9da032a..140c7d3 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -449,7 +449,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (ctype)len; \
             WRITE_EXPR; \
-            memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
+            if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
             if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
@@ -1126,7 +1126,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
                     
-                    memcpy(ctx->data_buffer + ctx->cursor, str, len);
+                    if (len > 0) memcpy(ctx->data_buffer + ctx->cursor, str, len);
                     ctx->cursor += len;
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
@@ -1136,7 +1136,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     // Optimization: Use memchr to find the null terminator quickly
                     size_t remaining = ctx->data_len - ctx->cursor;
-                    size_t search_len = (remaining < max_len) ? remaining : max_len;
+                    // The terminator stands within the first max_len + 1 bytes
+                    size_t search_len = (remaining < (size_t)max_len + 1) ? remaining : (size_t)max_len + 1;
                     
                     void* found = memchr(ctx->data_buffer + ctx->cursor, 0x00, search_len);
                     
@@ -1144,12 +1145,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         len = (uint8_t*)found - (ctx->data_buffer + ctx->cursor);
                         ctx->cursor += len;
                     } else {
-                        len = search_len;
-                        ctx->cursor += len;
+                        return remaining > max_len ? CND_ERR_VALIDATION : CND_ERR_OOB;
                     }
 
-                    if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
-                    
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
                     if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK;
-- 
2.43.0


From f375b4421d5f781825421f2c50b990c6be87fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 10/47] fix: verifier knows every instruction's real length and
 skips switch tables

---
 src/vm/vm_internal.h | 181 +++++++++++++++++++++++++++
 src/vm/vm_verify.c   | 286 +++++--------------------------------------
 2 files changed, 209 insertions(+), 258 deletions(-)

diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d49dc39..c9e791f 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -234,4 +234,185 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
     }
 }
 
+// --- Instruction Walking ---
+// One description of the bytecode layout, shared by everything that has to step
+// over instructions without executing them.
+
+#define CND_MAX_SWITCH_DEPTH 64 // Nested switch tables a walker keeps track of
+
+// Size in bytes of the operand value for a scalar type opcode, 0 if not a scalar.
+static inline size_t cnd_scalar_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
+        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
+        default: return 0;
+    }
+}
+
+// Length of the instruction at `ip`, switch tables excluded. CND_ERR_INVALID_OP for
+// an unknown opcode or operand type, CND_ERR_OOB if it runs past the end.
+static inline cnd_error_t cnd_insn_len(const uint8_t* bc, size_t len, size_t ip, size_t* out) {
+    if (ip >= len) return CND_ERR_OOB;
+    size_t left = len - ip;
+    const uint8_t* p = bc + ip;
+    size_t n = 1;
+
+    switch (p[0]) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE:
+        case OP_EXIT_STRUCT: case OP_CTX_QUERY:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE:
+        case OP_ARR_END: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            n = 1; break;
+
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL:
+            n = 2; break;
+
+        case OP_EMIT:
+            n = 2;
+            if (left >= 2 && cnd_scalar_size(p[1]) == 0) return CND_ERR_INVALID_OP;
+            break;
+
+        // Key
+        case OP_ENTER_STRUCT: case OP_META_NAME:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            n = 3; break;
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I: n = 4; break;          // Key, width
+        case OP_STR_NULL: case OP_ARR_DYNAMIC: n = 5; break;       // Key, max / ref key
+        case OP_JUMP: case OP_JUMP_IF_NOT: n = 5; break;           // Offset
+        case OP_ARR_FIXED: case OP_RAW_BYTES: n = 7; break;        // Key, count
+        case OP_SWITCH: case OP_SWITCH_TABLE: n = 7; break;        // Key, table offset
+        case OP_CRC_16: n = 8; break;                              // Poly, init, xor, flags
+        case OP_CRC_32: n = 14; break;
+        case OP_SCALE_LIN: n = 17; break;                          // Factor, offset
+        case OP_PUSH_IMM:
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+            n = 9; break;
+
+        case OP_TRANS_POLY:
+            n = 2;
+            if (left >= 2) n += (size_t)p[1] * 8;
+            break;
+        case OP_TRANS_SPLINE:
+            n = 2;
+            if (left >= 2) n += (size_t)p[1] * 16;
+            break;
+
+        case OP_CONST_CHECK: case OP_CONST_WRITE: case OP_RANGE_CHECK: case OP_ENUM_CHECK: {
+            size_t at = (p[0] == OP_CONST_CHECK) ? 3 : 1; // CONST_CHECK has a key first
+            n = at + 1;
+            if (left < n) break;
+            uint8_t type = p[at];
+            size_t size = cnd_scalar_size(type);
+            bool is_float = (type == OP_IO_F32 || type == OP_IO_F64);
+            bool is_signed = (type >= OP_IO_I8 && type <= OP_IO_I64);
+            if (size == 0 || type == OP_IO_BOOL) return CND_ERR_INVALID_OP;
+            if (is_float && p[0] != OP_RANGE_CHECK) return CND_ERR_INVALID_OP;
+            if (is_signed && p[0] == OP_CONST_WRITE) return CND_ERR_INVALID_OP;
+            if (p[0] == OP_RANGE_CHECK) n += 2 * size;
+            else if (p[0] == OP_ENUM_CHECK) {
+                n += 2;
+                if (left >= n) n += (size_t)read_u16(p + 2, CND_LE) * size;
+            }
+            else n += size;
+            break;
+        }
+
+        default:
+            return CND_ERR_INVALID_OP;
+    }
+
+    if (n > left) return CND_ERR_OOB;
+    *out = n;
+    return CND_ERR_OK;
+}
+
+// Span of the table belonging to the (complete) switch instruction at `ip`.
+static inline cnd_error_t cnd_switch_table(const uint8_t* bc, size_t len, size_t ip,
+                                           size_t* start, size_t* end) {
+    size_t base = ip + 7;
+    uint32_t rel = read_u32(bc + ip + 3, CND_LE);
+    if (rel > len - base) return CND_ERR_OOB;
+    size_t left = len - base - rel;
+    const uint8_t* t = bc + base + rel;
+    size_t size;
+
+    if (bc[ip] == OP_SWITCH) {
+        if (left < 6) return CND_ERR_OOB;
+        size = 6 + (size_t)read_u16(t, CND_LE) * 12;
+    } else {
+        if (left < 20) return CND_ERR_OOB;
+        uint64_t min_val = read_u64(t, CND_LE);
+        uint64_t max_val = read_u64(t + 8, CND_LE);
+        if (max_val < min_val) return CND_ERR_VALIDATION;
+        if (max_val - min_val >= (left - 20) / 4) return CND_ERR_OOB;
+        size = 20 + ((size_t)(max_val - min_val) + 1) * 4;
+    }
+    if (size > left) return CND_ERR_OOB;
+    *start = base + rel;
+    *end = base + rel + size;
+    return CND_ERR_OK;
+}
+
+// Steps through the instructions in order, skipping over switch tables.
+typedef struct {
+    const uint8_t* bc;
+    size_t len;
+    size_t ip;
+    size_t table_start[CND_MAX_SWITCH_DEPTH];
+    size_t table_end[CND_MAX_SWITCH_DEPTH];
+    int depth;
+} cnd_il_walker;
+
+static inline void cnd_il_walk(cnd_il_walker* w, const uint8_t* bc, size_t len) {
+    w->bc = bc;
+    w->len = len;
+    w->ip = 0;
+    w->depth = 0;
+}
+
+// Next instruction into *at and *size; *size is 0 at the end of the program.
+static inline cnd_error_t cnd_il_next(cnd_il_walker* w, size_t* at, size_t* size) {
+    while (w->depth > 0 && w->ip >= w->table_start[w->depth - 1]) {
+        if (w->ip > w->table_start[w->depth - 1]) return CND_ERR_OOB; // Runs into the table
+        w->ip = w->table_end[--w->depth];
+    }
+    *at = w->ip;
+    *size = 0;
+    if (w->ip >= w->len) return CND_ERR_OK;
+
+    cnd_error_t err = cnd_insn_len(w->bc, w->len, w->ip, size);
+    if (err != CND_ERR_OK) return err;
+
+    if (w->bc[w->ip] == OP_SWITCH || w->bc[w->ip] == OP_SWITCH_TABLE) {
+        size_t limit = (w->depth > 0) ? w->table_start[w->depth - 1] : w->len;
+        size_t start, end;
+        err = cnd_switch_table(w->bc, w->len, w->ip, &start, &end);
+        if (err != CND_ERR_OK) return err;
+        if (end > limit) return CND_ERR_OOB;
+        if (w->depth >= CND_MAX_SWITCH_DEPTH) return CND_ERR_STACK_OVERFLOW;
+        w->table_start[w->depth] = start;
+        w->table_end[w->depth] = end;
+        w->depth++;
+    }
+    w->ip += *size;
+    return CND_ERR_OK;
+}
+
 #endif
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index e554a7f..8cd17dd 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,283 +1,53 @@
 #include "concordia.h"
 #include "vm_internal.h"
 
+// Is base + off inside the program? Its end is a valid target: nothing follows a
+// branch or switch that ends the packet.
+static bool target_ok(size_t base, const uint8_t* off_ptr, size_t len)
+{
+    int64_t target = (int64_t)base + (int32_t)read_u32(off_ptr, CND_LE);
+    return target >= 0 && (uint64_t)target <= len;
+}
+
 cnd_error_t cnd_verify_program(const cnd_program* program)
 {
     if (!program || !program->bytecode) {
         return CND_ERR_OOB;
     }
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
     const uint8_t* bc = program->bytecode;
+    size_t len = program->bytecode_len;
+    cnd_il_walker w;
+    cnd_il_walk(&w, bc, len);
 
-    while (ip < len) {
-        uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
-
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
-
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
-
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
-
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
-
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
+    for (;;) {
+        size_t ip, size;
+        cnd_error_t err = cnd_il_next(&w, &ip, &size);
+        if (err != CND_ERR_OK) return err;
+        if (size == 0) return CND_ERR_OK;
 
+        switch (bc[ip]) {
             case OP_JUMP:
             case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
+                if (!target_ok(ip + 5, bc + ip + 1, len)) return CND_ERR_OOB;
                 break;
 
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = read_u32(off_ptr, CND_LE);
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)read_u32(def_ptr, CND_LE);
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)read_u32(case_ptr, CND_LE);
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
+            case OP_SWITCH:
             case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = read_u32(off_ptr, CND_LE);
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)read_u32(def_ptr, CND_LE);
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)read_u32(entry_ptr, CND_LE);
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
+                size_t table = w.table_start[w.depth - 1];
+                size_t end = w.table_end[w.depth - 1];
+                // Default offset and entries, all relative to the end of the instruction
+                bool is_table = (bc[ip] == OP_SWITCH_TABLE);
+                size_t def_at = table + (is_table ? 16 : 2);
+                if (!target_ok(ip + 7, bc + def_at, len)) return CND_ERR_OOB;
+                for (size_t at = def_at + 4; at < end; at += is_table ? 4 : 12) {
+                    if (!target_ok(ip + 7, bc + at + (is_table ? 0 : 8), len)) return CND_ERR_OOB;
                 }
-                
-                instr_len = 7;
                 break;
             }
 
             default:
-                return CND_ERR_INVALID_OP;
-        }
-
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
-
-        // Additional checks for JMP
-        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)read_u32(ptr, CND_LE);
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
-            }
+                break;
         }
-
-        ip += instr_len;
     }
-
-    return CND_ERR_OK;
 }
-- 
2.43.0


From 2f7f952c1b3b6ec20d8cd7d7c2bebaa820391c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 11/47] fix: skipping an empty array's body steps over whole
 instructions

---
 src/vm/vm_exec.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 140c7d3..8d9a758 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -349,13 +349,21 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 // --- Loop Stack Helpers ---
 
 static void skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    while (ctx->ip < len && depth > 0) {
+        uint8_t op = bc[ctx->ip];
+        size_t size = 1; // Unknown opcodes are ignored, as when executing
+        size_t table;
+        if (cnd_insn_len(bc, len, ctx->ip, &size) == CND_ERR_OOB) size = len - ctx->ip;
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        // A switch ends with its table, which is data
+        if ((op == OP_SWITCH || op == OP_SWITCH_TABLE) && size == 7 &&
+            cnd_switch_table(bc, len, ctx->ip, &table, &ctx->ip) == CND_ERR_OK) continue;
+        ctx->ip += size;
     }
 }
 
-- 
2.43.0


From 22618848d1cc5c7f50a9045a7c9189d59b1c18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 12/47] fix: until-end arrays release their frame when empty
 and never repeat without progress

---
 include/concordia.h |  4 +++-
 src/vm/vm_exec.c    | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/concordia.h b/include/concordia.h
index c116bef..bb83146 100644
--- a/include/concordia.h
+++ b/include/concordia.h
@@ -185,7 +185,9 @@ typedef enum {
 
 typedef struct {
     size_t start_ip;
-    uint32_t remaining;
+    uint32_t remaining;         // Elements left, this one included
+    bool until_eof;             // Loop until the data ends instead
+    size_t mark;                // until_eof: cursor where this element started
 } cnd_loop_frame;
 
 // Forward declaration for the IO callback
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 8d9a758..1026535 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -371,6 +371,8 @@ static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
     if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
     ctx->loop_stack[ctx->loop_depth].start_ip = start_ip;
     ctx->loop_stack[ctx->loop_depth].remaining = count;
+    ctx->loop_stack[ctx->loop_depth].until_eof = false;
+    ctx->loop_stack[ctx->loop_depth].mark = 0;
     ctx->loop_depth++;
     return true;
 }
@@ -1209,17 +1211,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
 
-                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
                     skip_loop_body(ctx);
                     RELOAD_PC();
+                    break;
                 }
+
+                if (!loop_push(ctx, ctx->ip, 0)) return CND_ERR_STACK_OVERFLOW;
+                ctx->loop_stack[ctx->loop_depth - 1].until_eof = true;
+                ctx->loop_stack[ctx->loop_depth - 1].mark = ctx->cursor;
                 break;
             }
 
@@ -1255,9 +1257,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->until_eof) {
                     // EOF Loop
-                    if (ctx->cursor < ctx->data_len) loop_continue = true;
+                    if (ctx->cursor < ctx->data_len) {
+                        // An element without data would repeat forever
+                        if (ctx->cursor == frame->mark) return CND_ERR_VALIDATION;
+                        frame->mark = ctx->cursor;
+                        loop_continue = true;
+                    }
                 } else {
                     // Fixed/Prefixed Loop
                     if (frame->remaining > 0) frame->remaining--;
-- 
2.43.0


From 1af26a64d3b1a7cff552247b560e77a8c59025a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 13/47] fix: @optional covers every kind of field, only when
 decoding, and skips the missing field's checks

---
 src/vm/vm_exec.c | 135 +++++++++++++++++++++++++++++------------------
 1 file changed, 84 insertions(+), 51 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1026535..9490cf9 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -171,14 +171,13 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 #define HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
-              ctype val = 0; \
-              SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-              break; \
-          } \
-          return CND_ERR_OOB; \
+          if (!optional) return CND_ERR_OOB; \
+          absent = true; \
+          ctx->trans_type = CND_TRANS_NONE; \
+          ctype val = 0; \
+          SYNC_IP(); \
+          if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+          break; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
           if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
@@ -254,21 +253,19 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           } \
       } \
       ctx->cursor += (size); \
-      ctx->is_next_optional = false; \
       break; }
 
 // Helper for float/double where we must memcopy to/from an integer representation
 #define HANDLE_FLOAT(size, ctype, int_t, READ_INT_EXPR, WRITE_INT_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
-              ctype val = 0; \
-              SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-              break; \
-          } \
-          return CND_ERR_OOB; \
+          if (!optional) return CND_ERR_OOB; \
+          absent = true; \
+          ctx->trans_type = CND_TRANS_NONE; \
+          ctype val = 0; \
+          SYNC_IP(); \
+          if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+          break; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
           if (vm_trans_is_f64(ctx)) { \
@@ -313,7 +310,6 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           } \
       } \
       ctx->cursor += (size); \
-      ctx->is_next_optional = false; \
       break; }
 
 #define CHECK_RANGE(size, ctype, IL_READ, BUF_READ) \
@@ -339,16 +335,22 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; /* also rejects NaN */ \
     }
 
-// Bit fields are 1 to 64 bits wide and lie inside the buffer
+// Bit fields are 1 to 64 bits wide and lie inside the buffer (or read as 0 when optional).
+// Uses the case's key `k` and value `v`.
 #define CHECK_BIT_WIDTH(bits) \
-    { \
-        if ((bits) < 1 || (bits) > 64) return CND_ERR_INVALID_OP; \
-        if (!bits_available(ctx, (bits))) return CND_ERR_OOB; \
+    if ((bits) < 1 || (bits) > 64) return CND_ERR_INVALID_OP; \
+    if (!bits_available(ctx, (bits))) { \
+        if (!optional) return CND_ERR_OOB; \
+        SYNC_IP(); \
+        if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+        break; \
     }
 
 // --- Loop Stack Helpers ---
 
-static void skip_loop_body(cnd_vm_ctx* ctx) {
+// Moves ip past the instruction that closes the construct it is in: OP_ARR_END for
+// an array, OP_EXIT_STRUCT for a struct.
+static void skip_construct(cnd_vm_ctx* ctx, uint8_t close_op) {
     const uint8_t* bc = ctx->program->bytecode;
     size_t len = ctx->program->bytecode_len;
     int depth = 1;
@@ -357,9 +359,11 @@ static void skip_loop_body(cnd_vm_ctx* ctx) {
         size_t size = 1; // Unknown opcodes are ignored, as when executing
         size_t table;
         if (cnd_insn_len(bc, len, ctx->ip, &size) == CND_ERR_OOB) size = len - ctx->ip;
-        if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
+        if (close_op == OP_EXIT_STRUCT) {
+            if (op == OP_ENTER_STRUCT) depth++;
+        } else if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
-        if (op == OP_ARR_END) depth--;
+        if (op == close_op) depth--;
         // A switch ends with its table, which is data
         if ((op == OP_SWITCH || op == OP_SWITCH_TABLE) && size == 7 &&
             cnd_switch_table(bc, len, ctx->ip, &table, &ctx->ip) == CND_ERR_OK) continue;
@@ -422,9 +426,11 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             WRITE_EXPR; \
             ctx->cursor += (size); \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            count = (READ_EXPR); \
-            ctx->cursor += (size); \
+            if (!(optional && ctx->cursor >= ctx->data_len)) { \
+                if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
+                count = (READ_EXPR); \
+                ctx->cursor += (size); \
+            } \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK; \
         } \
@@ -434,7 +440,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (!loop_push(ctx, ctx->ip, (uint32_t)count)) return CND_ERR_OOB; \
         } else { \
              SYNC_IP(); \
-             skip_loop_body(ctx); \
+             skip_construct(ctx, OP_ARR_END); \
              RELOAD_PC(); \
         } \
         break; \
@@ -447,10 +453,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
         if (ctx->mode == CND_MODE_ENCODE) { \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, &str) != CND_ERR_OK) { \
-                if (ctx->is_next_optional) { \
-                    ctx->is_next_optional = false; \
-                    break; \
-                } \
+                if (marked_optional) break; /* Skip optional string */ \
                 return CND_ERR_CALLBACK; \
             } \
             size_t len = str ? strlen(str) : 0; \
@@ -462,6 +465,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
+            if (optional && ctx->cursor >= ctx->data_len) break; \
             if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (READ_EXPR); \
             if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
@@ -470,7 +474,6 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
             ctx->cursor += (size) + len_val; \
         } \
-        ctx->is_next_optional = false; \
         break; \
     }
 
@@ -746,8 +749,34 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
 
+    bool absent = false; // The field just processed was optional and missing
+
     while (pc < end) {
         uint8_t opcode = *pc++;
+
+        if (absent) {
+            absent = false;
+            // Nothing was read, so there is nothing to validate
+            if (opcode == OP_RANGE_CHECK || opcode == OP_ENUM_CHECK) {
+                size_t size;
+                cnd_error_t err = cnd_insn_len(ctx->program->bytecode, ctx->program->bytecode_len,
+                                               (size_t)(pc - 1 - ctx->program->bytecode), &size);
+                if (err != CND_ERR_OK) return err;
+                pc += size - 1;
+                absent = true;
+                continue;
+            }
+        }
+
+        // @optional applies to the next field, past its transform and byte order
+        bool marked_optional = ctx->is_next_optional;
+        if (marked_optional && opcode != OP_SET_ENDIAN_LE && opcode != OP_SET_ENDIAN_BE &&
+            opcode != OP_SCALE_LIN && !(opcode >= OP_TRANS_ADD && opcode <= OP_TRANS_DIV) &&
+            opcode != OP_TRANS_POLY && opcode != OP_TRANS_SPLINE) {
+            ctx->is_next_optional = false;
+        }
+        // A field can only be missing from data that is being read
+        bool optional = marked_optional && ctx->mode == CND_MODE_DECODE;
         // printf("Opcode: %02X at IP %zu\n", opcode, (size_t)(pc - ctx->program->bytecode - 1));
 
         // Check alignment
@@ -767,6 +796,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t key = FETCH_IL_U16(ctx);
                 // printf("VM_DEBUG: Calling callback for ENTER_STRUCT (Key %d)\n", key);
                 SYNC_IP();
+                if (optional && ctx->cursor >= ctx->data_len) {
+                    skip_construct(ctx, OP_EXIT_STRUCT);
+                    RELOAD_PC();
+                    break;
+                }
                 // Allow callback to return error, but also allow it to just return OK.
                 // If callback returns error, we stop.
                 if (ctx->io_callback(ctx, key, opcode, NULL) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -822,6 +856,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 else if (type == OP_IO_U64 || type == OP_IO_I64) { expected = FETCH_IL_U64(ctx); size=8; }
                 else { return CND_ERR_INVALID_OP; }
                 
+                if (optional && ctx->cursor + size > ctx->data_len) { absent = true; break; }
                 if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
@@ -922,6 +957,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 16);
                 
+                if (optional && ctx->cursor + 2 > ctx->data_len) break;
                 if (ctx->cursor + 2 > ctx->data_len) return CND_ERR_OOB;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
@@ -942,6 +978,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 32);
                 
+                if (optional && ctx->cursor + 4 > ctx->data_len) break;
                 if (ctx->cursor + 4 > ctx->data_len) return CND_ERR_OOB;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
@@ -1009,14 +1046,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BOOL: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 if (ctx->cursor + 1 > ctx->data_len) {
-                    if (ctx->is_next_optional) {
-                        ctx->is_next_optional = false;
-                        uint8_t val = 0;
-                        SYNC_IP();
-                        if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
-                        break;
-                    }
-                    return CND_ERR_OOB;
+                    if (!optional) return CND_ERR_OOB;
+                    uint8_t val = 0;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
                 }
                 uint8_t val = 0;
                 if (ctx->mode == CND_MODE_ENCODE) {
@@ -1031,7 +1065,6 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
                 ctx->cursor += 1;
-                ctx->is_next_optional = false;
                 break;
             }
 
@@ -1124,10 +1157,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, key, opcode, &str) != CND_ERR_OK) {
-                        if (ctx->is_next_optional) {
-                            ctx->is_next_optional = false;
-                            break; // Skip optional string
-                        }
+                        if (marked_optional) break; // Skip optional string
                         return CND_ERR_CALLBACK;
                     }
                     
@@ -1141,6 +1171,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
                 } else {
+                    if (optional && ctx->cursor >= ctx->data_len) break;
                     size_t start = ctx->cursor;
                     size_t len = 0;
                     
@@ -1164,7 +1195,6 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     ctx->cursor++; // Skip null
                 }
-                ctx->is_next_optional = false;
                 break;
             }
 
@@ -1179,6 +1209,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_ARR_FIXED: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 uint32_t count = FETCH_IL_U32(ctx);
+                if (optional && ctx->cursor >= ctx->data_len) count = 0;
                 // printf("VM_DEBUG: Calling callback for ARR_FIXED (Key %d)\n", key);
                 if (ctx->mode == CND_MODE_ENCODE) {
                      // Notify host about array start so it can push context
@@ -1199,7 +1230,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
                      SYNC_IP();
-                     skip_loop_body(ctx);
+                     skip_construct(ctx, OP_ARR_END);
                      RELOAD_PC();
                 }
                 break;
@@ -1214,7 +1245,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
-                    skip_loop_body(ctx);
+                    skip_construct(ctx, OP_ARR_END);
                     RELOAD_PC();
                     break;
                 }
@@ -1236,6 +1267,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 if (count_val > 0xFFFFFFFF) return CND_ERR_ARITHMETIC;
                 uint32_t count = (uint32_t)count_val;
+                if (optional && ctx->cursor >= ctx->data_len) count = 0;
                 
                 SYNC_IP();
                 if (ctx->io_callback(ctx, key, OP_ARR_DYNAMIC, &count) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1244,7 +1276,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
-                     skip_loop_body(ctx);
+                     skip_construct(ctx, OP_ARR_END);
                      RELOAD_PC();
                 }
                 break;
@@ -1584,6 +1616,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) size = 8;
                     else return CND_ERR_INVALID_OP;
                     
+                    if (optional && ctx->cursor + size > ctx->data_len) break;
                     if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
                     
                     uint64_t bin_val = 0;
-- 
2.43.0


From 78d56a076469fa354f3e3cbf0b6be21924cf1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 14/47] fix: decoding a computed field accepts exactly what
 encoding wrote

---
 src/vm/vm_exec.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 9490cf9..c34f3b6 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1529,9 +1529,15 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
 
             case OP_EMIT: {
+                // A computed field starts on a byte boundary like any other
+                if (ctx->bit_offset != 0) {
+                    ctx->cursor++;
+                    ctx->bit_offset = 0;
+                }
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
                 if (stack_pop(ctx, &val) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (type == OP_IO_BOOL && val > 1) return CND_ERR_VALIDATION;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     int size = 0;
@@ -1633,14 +1639,16 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         float f_bin; memcpy(&f_bin, &bin_val, 4);
                         
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        if (memcmp(&f_val, &f_bin, 4) != 0 && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        if (bin_val != val && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
+                        // Only the bytes that fit the field were written
+                        if (size < 8) val &= (1ULL << (size * 8)) - 1;
                         if (bin_val != val) return CND_ERR_VALIDATION;
                     }
                     
-- 
2.43.0


From 6ca9d31f44d93ec98cbb090b524c370520dba6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 15/47] fix: reject IL images whose string table runs past the
 end

---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c34f3b6..233a1c0 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -616,6 +616,14 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     uint32_t bc_offset = read_u32(image + 12, CND_LE);
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
+
+    // Every counted string ends inside the image
+    const uint8_t* str = image + str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const uint8_t* nul = memchr(str, 0, (size_t)(image + len - str));
+        if (!nul) return CND_ERR_OOB;
+        str = nul + 1;
+    }
     
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
-- 
2.43.0


From 372eb5da716d0fc9a8d6bfd77a108300891642cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 16/47] fix: parse unary operators, grouping and minus as
 written; convert int()/float() only when needed

---
 src/compiler/cnd_parser.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..f339617 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -42,14 +42,13 @@ ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
     for (int i = 0; i < t.length; i++) {
-        if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
+        if (t.start[i] == '.') return 1;
     }
     return 0;
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type;
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
@@ -123,13 +122,12 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
     ExprType t = parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
 
-static ParseRule rules[] = {
+static ParseRule rules[TOK_ERROR + 1] = {
     [TOK_LPAREN]    = {parse_grouping, NULL, PREC_NONE},
     [TOK_MINUS]     = {parse_unary, parse_binary, PREC_TERM},
     [TOK_PLUS]      = {NULL, parse_binary, PREC_TERM},
@@ -176,7 +174,14 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
 
     ExprType left = prefix_rule(p);
 
-    while (prec <= get_rule(p->current.type)->precedence) {
+    for (;;) {
+        // Where an operator can stand, the minus in front of a number is one: a -1
+        if (p->current.type == TOK_NUMBER && p->current.start[0] == '-') {
+            p->current.type = TOK_MINUS;
+            p->current.length = 1;
+            p->lexer.current = p->current.start + 1;
+        }
+        if (prec > get_rule(p->current.type)->precedence) break;
         advance(p);
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
@@ -423,15 +428,15 @@ ExprType parse_primary(Parser* p) {
             return TYPE_FLOAT;
         } else if (match_keyword(name, "float")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force ITOF
+            ExprType t = parse_expression(p);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_ITOF);
+            if (t != TYPE_FLOAT) buf_push(p->target, OP_ITOF);
             return TYPE_FLOAT;
         } else if (match_keyword(name, "int")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force FTOI
+            ExprType t = parse_expression(p);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_FTOI);
+            if (t != TYPE_INT) buf_push(p->target, OP_FTOI);
             return TYPE_INT;
         } else {
             // Handle Dot Notation (e.g. position.x)
-- 
2.43.0


From 129cd5f034828e2240d05d651732ed912908b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 17/47] fix: convert an @expr result to the kind of number its
 field holds

---
 src/compiler/cnd_parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index f339617..55782e3 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -785,6 +785,7 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t crc_flags = 0;
 
     int has_expr = 0;
+    ExprType expr_type = TYPE_UNKNOWN;
     int has_eof = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
@@ -941,7 +942,7 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "expr")) {
-                parse_expression(p);
+                expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
                 parser_error(p, "Unknown decorator");
@@ -1281,6 +1282,10 @@ void parse_field(Parser* p, const char* doc) {
                          buf_push(p->target, crc_flags);
                      }
                 } else if (has_expr) {
+                    // The value has to have the representation the field is emitted with
+                    int is_float_field = (op == OP_IO_F32 || op == OP_IO_F64);
+                    if (is_float_field && expr_type == TYPE_INT) buf_push(p->target, OP_ITOF);
+                    else if (!is_float_field && expr_type == TYPE_FLOAT) buf_push(p->target, OP_FTOI);
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
-- 
2.43.0


From aacb46e9d0e05835f85caf2ddb43775fd97f3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 18/47] fix: bound compiler recursion and packet growth instead
 of running out of stack or memory

---
 src/compiler/cnd_internal.h |   4 ++
 src/compiler/cnd_parser.c   | 107 ++++++++++++++++++++++++++----------
 2 files changed, 83 insertions(+), 28 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..37dfab9 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -210,6 +210,9 @@ EnumDef* enum_reg_add(EnumRegistry* r, const char* name, int len, int line, cons
 EnumDef* enum_reg_find(EnumRegistry* r, const char* name, int len);
 
 // --- Parser ---
+#define CND_MAX_NESTING 256                  // Nested blocks, expressions, imports
+#define CND_MAX_BYTECODE (16u * 1024 * 1024) // Inlined structs can grow exponentially
+
 typedef struct {
     int line;
     int column;
@@ -240,6 +243,7 @@ typedef struct {
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
     int import_depth; // Track recursion depth of imports
+    int nesting;      // Blocks and expressions currently open
     
     // Decorator State
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 55782e3..44158ba 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_internal.h"
 
 // Precedence levels
 typedef enum {
@@ -164,11 +165,23 @@ ExprType parse_expression(Parser* p) {
     return parse_precedence(p, PREC_OR);
 }
 
+// Opens one more level of nesting, which the matching `p->nesting--` closes.
+static int enter_nesting(Parser* p) {
+    if (p->nesting >= CND_MAX_NESTING) {
+        parser_error(p, "Nested too deeply");
+        return 0;
+    }
+    p->nesting++;
+    return 1;
+}
+
 static ExprType parse_precedence(Parser* p, Precedence prec) {
+    if (p->had_error || !enter_nesting(p)) return TYPE_UNKNOWN;
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
         parser_error(p, "Expect expression");
+        p->nesting--;
         return TYPE_UNKNOWN;
     }
 
@@ -186,6 +199,7 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
     }
+    p->nesting--;
     return left;
 }
 
@@ -474,39 +488,50 @@ ExprType parse_primary(Parser* p) {
 }
 
 void parse_if(Parser* p) {
-    consume(p, TOK_LPAREN, "Expect ( after if");
-    parse_expression(p);
-    consume(p, TOK_RPAREN, "Expect ) after if condition");
-    
-    size_t jump_false_loc = buf_current_offset(p->target);
-    buf_push(p->target, OP_JUMP_IF_NOT);
-    buf_push_u32(p->target, 0); // Placeholder
-    
-    parse_block(p);
-    
-    size_t jump_end_loc = buf_current_offset(p->target);
-    buf_push(p->target, OP_JUMP);
-    buf_push_u32(p->target, 0); // Placeholder
-    
-    // Patch jump_false
-    size_t else_start = buf_current_offset(p->target);
-    int32_t false_offset = (int32_t)(else_start - (jump_false_loc + 1 + 4));
-    buf_write_u32_at(p->target, jump_false_loc + 1, (uint32_t)false_offset);
-    
-    if (p->current.type == TOK_ELSE) {
+    size_t* jump_ends = NULL; // One per branch, patched to the end of the chain
+    size_t jump_count = 0;
+    size_t jump_cap = 0;
+
+    for (;;) {
+        consume(p, TOK_LPAREN, "Expect ( after if");
+        parse_expression(p);
+        consume(p, TOK_RPAREN, "Expect ) after if condition");
+
+        size_t jump_false_loc = buf_current_offset(p->target);
+        buf_push(p->target, OP_JUMP_IF_NOT);
+        buf_push_u32(p->target, 0); // Placeholder
+
+        parse_block(p);
+
+        if (jump_count >= jump_cap) {
+            jump_cap = (jump_cap == 0) ? 8 : jump_cap * 2;
+            jump_ends = realloc(jump_ends, jump_cap * sizeof(size_t));
+        }
+        jump_ends[jump_count++] = buf_current_offset(p->target);
+        buf_push(p->target, OP_JUMP);
+        buf_push_u32(p->target, 0); // Placeholder
+
+        // Patch jump_false
+        size_t else_start = buf_current_offset(p->target);
+        int32_t false_offset = (int32_t)(else_start - (jump_false_loc + 1 + 4));
+        buf_write_u32_at(p->target, jump_false_loc + 1, (uint32_t)false_offset);
+
+        if (p->current.type != TOK_ELSE) break;
         advance(p);
-        if (p->current.type == TOK_IF) {
-            advance(p);
-            parse_if(p); // recursive else if
-        } else {
+        if (p->current.type != TOK_IF) {
             parse_block(p);
+            break;
         }
+        advance(p); // else if
     }
-    
-    // Patch jump_end
+
+    // Patch the jumps over the rest of the chain
     size_t end_loc = buf_current_offset(p->target);
-    int32_t end_offset = (int32_t)(end_loc - (jump_end_loc + 1 + 4));
-    buf_write_u32_at(p->target, jump_end_loc + 1, (uint32_t)end_offset);
+    for (size_t i = 0; i < jump_count; i++) {
+        int32_t end_offset = (int32_t)(end_loc - (jump_ends[i] + 1 + 4));
+        buf_write_u32_at(p->target, jump_ends[i] + 1, (uint32_t)end_offset);
+    }
+    free(jump_ends);
 }
 
 typedef struct {
@@ -515,6 +540,7 @@ typedef struct {
 } SwitchCase;
 
 void parse_switch(Parser* p) {
+    if (!enter_nesting(p)) return;
     consume(p, TOK_LPAREN, "Expect ( after switch");
     Token field_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect discriminator field name");
@@ -730,6 +756,7 @@ void parse_switch(Parser* p) {
     
     if(cases) free(cases);
     if(jump_fixups) free(jump_fixups);
+    p->nesting--;
 }
 
 void parse_field(Parser* p, const char* doc) {
@@ -1162,6 +1189,11 @@ void parse_field(Parser* p, const char* doc) {
             if (has_crc) { parser_error(p, "Cannot apply CRC to struct field"); }
             if (bit_width > 0) { parser_error(p, "Bitfields not supported for struct fields"); }
 
+            if (p->target->size + sdef->bytecode.size > CND_MAX_BYTECODE) {
+                parser_error(p, "Packet is too large");
+                return;
+            }
+
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
             // Get the field name for prefixing nested fields
@@ -1305,6 +1337,7 @@ void parse_field(Parser* p, const char* doc) {
 }
 
 void parse_block(Parser* p) {
+    if (p->had_error || !enter_nesting(p)) return;
     consume(p, TOK_LBRACE, "Expect {");
     StringBuilder doc_sb;
     sb_init(&doc_sb);
@@ -1324,6 +1357,7 @@ void parse_block(Parser* p) {
     }
     consume(p, TOK_RBRACE, "Expect }");
     sb_free(&doc_sb);
+    p->nesting--;
 }
 
 void parse_enum(Parser* p, const char* doc) {
@@ -1535,6 +1569,17 @@ void parse_packet(Parser* p, const char* doc) {
     
     // Patch the key
     buf_write_u16_at(p->target, meta_loc + 1, key_id);
+
+    // The walkers (verifier, disassembler) keep a bounded number of switch tables open
+    cnd_il_walker w;
+    size_t at, size = 0;
+    cnd_error_t err;
+    cnd_il_walk(&w, p->target->data, p->target->size);
+    do { err = cnd_il_next(&w, &at, &size); } while (err == CND_ERR_OK && size > 0);
+    if (err != CND_ERR_OK && !p->had_error) {
+        parser_error(p, (err == CND_ERR_STACK_OVERFLOW) ? "Switches nested too deeply"
+                                                        : "Packet cannot be expressed in IL");
+    }
 }
 
 // Helper to resolve path relative to base
@@ -1574,6 +1619,12 @@ void parse_import(Parser* p) {
     char* full_path = cnd_canonicalize_path(joined_path);
     free(joined_path);
     
+    if (p->import_depth >= CND_MAX_NESTING) {
+        parser_error(p, "Imports nested too deeply");
+        free(full_path);
+        return;
+    }
+
     // Check if already imported
     for (size_t i = 0; i < p->imports.count; i++) {
         if (strcmp(p->imports.strings[i], full_path) == 0) {
-- 
2.43.0


From 450e0e0e2e0045f0279b001fb5942c28565da5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 19/47] fix: step over real instruction lengths when prefixing
 and renumbering keys

---
 src/compiler/cnd_internal.h |  13 +-
 src/compiler/cnd_parser.c   |  23 ++--
 src/compiler/cnd_utils.c    | 251 ++++++++---------------------------
 src/compiler/cndc.c         | 257 ++++--------------------------------
 4 files changed, 109 insertions(+), 435 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 37dfab9..079f7ba 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -135,15 +135,22 @@ typedef struct {
     char** strings;
     size_t count;
     size_t capacity;
+    int overflow; // More strings than IDs
 } StringTable;
 
+#define CND_MAX_STRINGS 0xFFFF // The last ID marks a missing key
+
 void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab);
+// Replaces every key ID in the bytecode by fn(user, id). Returns 0 if it is malformed.
+typedef uint16_t (*KeyMapFn)(void* user, uint16_t key);
+int il_map_keys(uint8_t* bc, size_t len, KeyMapFn fn, void* user);
+
+// Append struct bytecode with key IDs remapped to include prefix. Returns 0 if it is malformed.
+int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len,
+                           const char* prefix, int prefix_len, StringTable* strtab);
 
 // --- Utils: StringBuilder ---
 typedef struct {
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 44158ba..34d5e6d 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1196,15 +1196,12 @@ void parse_field(Parser* p, const char* doc) {
 
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
-            // Get the field name for prefixing nested fields
-            char field_name[256];
-            int field_name_len = name_tok.length < 255 ? name_tok.length : 255;
-            memcpy(field_name, name_tok.start, field_name_len);
-            field_name[field_name_len] = '\0';
-            
             // Append struct bytecode with field names prefixed
-            buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+            if (!buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
+                                        name_tok.start, name_tok.length, &p->strtab)) {
+                parser_error(p, "Struct cannot be expressed in IL");
+                return;
+            }
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1273,7 +1270,13 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 if (op == OP_IO_BIT_BOOL && bit_width != 1) {
+                     parser_error(p, "A bool bitfield is one bit wide");
+                     return;
+                 }
+
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width);
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
@@ -1570,6 +1573,8 @@ void parse_packet(Parser* p, const char* doc) {
     // Patch the key
     buf_write_u16_at(p->target, meta_loc + 1, key_id);
 
+    if (p->strtab.overflow && !p->had_error) parser_error(p, "Too many names");
+
     // The walkers (verifier, disassembler) keep a bounded number of switch tables open
     cnd_il_walker w;
     size_t at, size = 0;
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..8ba9222 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_internal.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,209 +28,66 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
-    
+// Whether the instruction has a key right behind the opcode
+static int has_key(uint8_t op) {
     switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
+        case OP_ENTER_STRUCT: case OP_META_NAME:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
+        case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL:
+        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF: case OP_ARR_DYNAMIC: case OP_RAW_BYTES:
+        case OP_CONST_CHECK: case OP_SWITCH: case OP_SWITCH_TABLE:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
             return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
         default:
-            return -1; // Unknown/variable - can't process
+            return 0;
     }
 }
 
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
-        
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
+int il_map_keys(uint8_t* bc, size_t len, KeyMapFn fn, void* user) {
+    cnd_il_walker w;
+    cnd_il_walk(&w, bc, len);
+    for (;;) {
+        size_t at, size;
+        if (cnd_il_next(&w, &at, &size) != CND_ERR_OK) return 0;
+        if (size == 0) return 1;
+        if (has_key(bc[at])) write_u16(bc + at + 1, fn(user, read_u16(bc + at + 1, CND_LE)), CND_LE);
+        if (bc[at] == OP_ARR_DYNAMIC) { // Key of the field holding the count
+            write_u16(bc + at + 3, fn(user, read_u16(bc + at + 3, CND_LE)), CND_LE);
         }
-        
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
-        } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
-            }
-        }
-        
-        i += instr_size;
     }
 }
 
+typedef struct {
+    const char* prefix;
+    int prefix_len;
+    StringTable* strtab;
+} PrefixMap;
+
+static uint16_t map_prefixed(void* user, uint16_t key) {
+    PrefixMap* m = (PrefixMap*)user;
+    const char* name = (key < m->strtab->count) ? m->strtab->strings[key] : "";
+    StringBuilder sb;
+    sb_init(&sb);
+    sb_append_n(&sb, m->prefix, (size_t)m->prefix_len);
+    sb_append_c(&sb, '.');
+    sb_append(&sb, name);
+    uint16_t new_key = strtab_add(m->strtab, sb.data, (int)sb.length);
+    sb_free(&sb);
+    return new_key;
+}
+
+int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len,
+                           const char* prefix, int prefix_len, StringTable* strtab) {
+    PrefixMap m = { prefix, prefix_len, strtab };
+    size_t start = b->size;
+    buf_append(b, src, len);
+    return il_map_keys(b->data + start, len, map_prefixed, &m);
+}
+
 // --- Buffer Implementation ---
 
 void buf_init(Buffer* b) {
@@ -247,7 +105,7 @@ void buf_append(Buffer* b, const uint8_t* data, size_t len) {
         while (b->size + len > b->capacity) b->capacity *= 2;
         b->data = realloc(b->data, b->capacity);
     }
-    memcpy(b->data + b->size, data, len);
+    if (len > 0) memcpy(b->data + b->size, data, len);
     b->size += len;
 }
 
@@ -303,6 +161,7 @@ size_t buf_current_offset(Buffer* b) {
 
 void strtab_init(StringTable* t) {
     t->count = 0;
+    t->overflow = 0;
     t->capacity = 32;
     t->strings = malloc(t->capacity * sizeof(char*));
 }
@@ -313,6 +172,10 @@ uint16_t strtab_add(StringTable* t, const char* start, int len) {
             return (uint16_t)i;
         }
     }
+    if (t->count >= CND_MAX_STRINGS) {
+        t->overflow = 1; // IDs are 16 bit
+        return 0;
+    }
     if (t->count >= t->capacity) {
         t->capacity = (t->capacity == 0) ? 8 : t->capacity * 2;
         t->strings = realloc(t->strings, t->capacity * sizeof(char*));
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..649440e 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -3,255 +3,54 @@
 #include <string.h>
 #include "cnd_internal.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
-    }
+typedef struct {
+    uint8_t* used;
+    uint16_t* map;
+    size_t count;
+} StringUse;
+
+static uint16_t mark_used(void* user, uint16_t id) {
+    StringUse* u = (StringUse*)user;
+    if (id < u->count) u->used[id] = 1;
+    return id;
+}
+
+static uint16_t map_used(void* user, uint16_t id) {
+    StringUse* u = (StringUse*)user;
+    return (id < u->count) ? u->map[id] : id;
 }
 
 static void optimize_strings(Parser* p) {
     if (p->strtab.count == 0) return;
 
-    // 1. Mark used strings
-    uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
     uint8_t* bc = p->global_bc.data;
     size_t len = p->global_bc.size;
+    StringUse use;
+    use.count = p->strtab.count;
+    use.used = calloc(use.count, 1);
+    use.map = calloc(use.count, sizeof(uint16_t));
 
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    // 1. Mark used strings
+    il_map_keys(bc, len, mark_used, &use);
 
     // 2. Build new string table and map
-    uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
     StringTable new_tab;
     strtab_init(&new_tab);
-
-    for (size_t i = 0; i < p->strtab.count; i++) {
-        if (used[i]) {
-            uint16_t new_id = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
-            map[i] = new_id;
-        } else {
-            map[i] = 0; // Should not be used
+    for (size_t i = 0; i < use.count; i++) {
+        if (use.used[i]) {
+            use.map[i] = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
         }
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    il_map_keys(bc, len, map_used, &use);
 
     // Replace string table
-    for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
-    free(p->strtab.strings);
+    strtab_free(&p->strtab);
     p->strtab = new_tab;
 
-    free(used);
-    free(map);
+    free(use.used);
+    free(use.map);
 }
 
 // Implementation of cnd_compile_file using the new modular structure
-- 
2.43.0


From 15235c9d30dfb29241a005b05ededb1c734ddd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 20/47] fix: a byte-order annotation applies to its field only
 and the enclosing order resumes after it

---
 src/compiler/cnd_internal.h |  8 ++++++--
 src/compiler/cnd_parser.c   | 25 +++++++++++++++++++------
 src/compiler/cnd_utils.c    | 10 ++++++++++
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 079f7ba..d97b707 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -148,6 +148,11 @@ uint16_t strtab_add(StringTable* t, const char* start, int len);
 typedef uint16_t (*KeyMapFn)(void* user, uint16_t key);
 int il_map_keys(uint8_t* bc, size_t len, KeyMapFn fn, void* user);
 
+// Placeholder for "back to the byte order of the enclosing struct or packet", which is
+// only known once the struct is inlined. Never appears in a finished program.
+#define IL_RESTORE_ENDIAN OP_CTX_QUERY
+void il_resolve_endian(uint8_t* bc, size_t len, int big_endian);
+
 // Append struct bytecode with key IDs remapped to include prefix. Returns 0 if it is malformed.
 int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len,
                            const char* prefix, int prefix_len, StringTable* strtab);
@@ -254,8 +259,7 @@ typedef struct {
     
     // Decorator State
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
-    int pending_be;        // Flag: Next struct is @big_endian
-    int pending_le;        // Flag: Next struct is @little_endian
+    int packet_be;         // Flag: Packet-level byte order is big endian
     int in_bit_mode;       // Flag: Currently parsing inside @unaligned_bytes struct
     
     // Bit Tracking for Validation
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 34d5e6d..0589522 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -785,7 +785,7 @@ void parse_field(Parser* p, const char* doc) {
     int has_fixed_array_count = 0;
     uint64_t const_val = 0;
     int has_const = 0;
-    int is_big_endian_field = 0;
+    uint8_t field_endian = OP_NOOP; // OP_SET_ENDIAN_* if annotated
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -829,9 +829,9 @@ void parse_field(Parser* p, const char* doc) {
         consume(p, TOK_IDENTIFIER, "Expect decorator name");
         
         if (match_keyword(dec_name_token, "big_endian") || match_keyword(dec_name_token, "be")) {
-            is_big_endian_field = 1;
+            field_endian = OP_SET_ENDIAN_BE;
         } else if (match_keyword(dec_name_token, "little_endian") || match_keyword(dec_name_token, "le")) {
-             is_big_endian_field = 0;
+            field_endian = OP_SET_ENDIAN_LE;
         } else if (match_keyword(dec_name_token, "fill")) {
             is_standalone_op = 1;
             uint8_t fill_val = 0;
@@ -1094,7 +1094,7 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
+    if (field_endian != OP_NOOP) { buf_push(p->target, field_endian); }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1197,11 +1197,16 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
             // Append struct bytecode with field names prefixed
+            size_t body = p->target->size;
             if (!buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                         name_tok.start, name_tok.length, &p->strtab)) {
                 parser_error(p, "Struct cannot be expressed in IL");
                 return;
             }
+            if (field_endian != OP_NOOP || p->in_bit_mode) {
+                il_resolve_endian(p->target->data + body, p->target->size - body,
+                                  field_endian != OP_SET_ENDIAN_LE);
+            }
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1336,7 +1341,10 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_LE); }
+    if (field_endian != OP_NOOP) {
+        // An unaligned struct is big endian inside; elsewhere it depends on who uses the struct
+        buf_push(p->target, p->in_bit_mode ? OP_SET_ENDIAN_BE : IL_RESTORE_ENDIAN);
+    }
 }
 
 void parse_block(Parser* p) {
@@ -1513,6 +1521,7 @@ void parse_struct(Parser* p, const char* doc) {
             parser_error(p, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
+        buf_push(p->target, IL_RESTORE_ENDIAN);
         p->in_bit_mode = 0;
     }
     p->in_bit_mode = was_in_bit_mode;
@@ -1573,6 +1582,8 @@ void parse_packet(Parser* p, const char* doc) {
     // Patch the key
     buf_write_u16_at(p->target, meta_loc + 1, key_id);
 
+    il_resolve_endian(p->target->data + meta_loc, p->target->size - meta_loc, p->packet_be);
+
     if (p->strtab.overflow && !p->had_error) parser_error(p, "Too many names");
 
     // The walkers (verifier, disassembler) keep a bounded number of switch tables open
@@ -1703,10 +1714,12 @@ void parse_top_level(Parser* p) {
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-            } else if (match_keyword(dec, "big_endian")) {
+            } else if (match_keyword(dec, "big_endian") || match_keyword(dec, "be")) {
                 buf_push(p->target, OP_SET_ENDIAN_BE);
+                p->packet_be = 1;
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
                 buf_push(p->target, OP_SET_ENDIAN_LE);
+                p->packet_be = 0;
             } else if (match_keyword(dec, "unaligned_bytes")) {
                 p->pending_unaligned = 1;
             } else {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 8ba9222..281554d 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -61,6 +61,16 @@ int il_map_keys(uint8_t* bc, size_t len, KeyMapFn fn, void* user) {
     }
 }
 
+void il_resolve_endian(uint8_t* bc, size_t len, int big_endian) {
+    cnd_il_walker w;
+    cnd_il_walk(&w, bc, len);
+    for (;;) {
+        size_t at, size;
+        if (cnd_il_next(&w, &at, &size) != CND_ERR_OK || size == 0) return;
+        if (bc[at] == IL_RESTORE_ENDIAN) bc[at] = big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE;
+    }
+}
+
 typedef struct {
     const char* prefix;
     int prefix_len;
-- 
2.43.0


From 04d812343310341889471bc45969f9afa5b33edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 21/47] fix: reject literals that do not fit their field or
 operand, and report errors at the offending token

---
 src/compiler/cnd_internal.h |  14 +-
 src/compiler/cnd_parser.c   | 353 ++++++++++++++++++------------------
 src/compiler/cnd_utils.c    |  40 +++-
 3 files changed, 224 insertions(+), 183 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index d97b707..699a2fb 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -111,6 +111,17 @@ uint32_t parse_number_u32(const char* start, int length);
 int64_t parse_number_i64(const char* start, int length);
 double parse_number_double(const char* start, int length);
 
+// An integer literal of up to 64 bits. Returns 0 if it is not one.
+typedef struct {
+    int negative;
+    uint64_t magnitude;
+} IntLiteral;
+int parse_int_literal(const char* start, int length, IntLiteral* out);
+// Can an integer of that many bits hold it?
+int int_literal_fits(IntLiteral v, int bits, int is_signed);
+// Two's complement value
+uint64_t int_literal_bits(IntLiteral v);
+
 // --- Utils: Buffer ---
 typedef struct {
     uint8_t* data;
@@ -278,7 +289,8 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
-void parser_error(Parser* p, const char* msg);
+void parser_error(Parser* p, const char* msg); // At the current token
+void parser_error_at(Parser* p, Token at, const char* msg);
 void advance(Parser* p);
 void consume(Parser* p, TokenType type, const char* msg);
 int match_keyword(Token t, const char* kw);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 0589522..02ecb98 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -206,15 +206,19 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
 static char* append_doc(char* current, Token t);
 
 void parser_error(Parser* p, const char* msg) {
+    parser_error_at(p, p->current, msg);
+}
+
+void parser_error_at(Parser* p, Token at, const char* msg) {
     p->had_error = 1;
     p->error_count++;
 
     // Calculate column
-    const char* line_start = p->current.start;
+    const char* line_start = at.start;
     while (line_start > p->lexer.source && *(line_start - 1) != '\n' && *(line_start - 1) != '\r') {
         line_start--;
     }
-    int col = (int)(p->current.start - line_start) + 1;
+    int col = (int)(at.start - line_start) + 1;
 
     // Store error for LSP/API usage
     if ((size_t)p->error_count > p->error_cap) { // Allow growing
@@ -229,7 +233,7 @@ void parser_error(Parser* p, const char* msg) {
     
     if (p->errors && (size_t)p->error_count <= p->error_cap) {
         CompilerError* err = &p->errors[p->error_count - 1];
-        err->line = p->current.line;
+        err->line = at.line;
         err->column = col;
         err->message = strdup(msg); // Make sure to free this later!
     }
@@ -240,15 +244,15 @@ void parser_error(Parser* p, const char* msg) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
         printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, p->current.line, msg, p->current.length, p->current.start);
+            p->current_path, at.line, msg, at.length, at.start);
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
         printf(COLOR_BOLD "%s:%d:%d: " COLOR_RED "error: " COLOR_RESET COLOR_BOLD "%s" COLOR_RESET "\n", 
-            p->current_path, p->current.line, col, msg);
+            p->current_path, at.line, col, msg);
         
         // Print source line context
-        const char* line_end = p->current.start;
+        const char* line_end = at.start;
         while (*line_end && *line_end != '\n' && *line_end != '\r') {
             line_end++;
         }
@@ -264,7 +268,7 @@ void parser_error(Parser* p, const char* msg) {
             
             // Print squiggles
             printf(COLOR_RED "^");
-            int len = p->current.length;
+            int len = at.length;
             if (len < 1) len = 1;
             for(int i=1; i<len; i++) printf("~");
             printf(COLOR_RESET "\n");
@@ -298,69 +302,83 @@ int match_keyword(Token t, const char* kw) {
 
 
 
+// Width in bits of an integer type opcode, 0 for anything else
+static int int_type_bits(uint8_t op) {
+    switch (op) {
+        case OP_IO_U8: case OP_IO_I8: return 8;
+        case OP_IO_U16: case OP_IO_I16: return 16;
+        case OP_IO_U32: case OP_IO_I32: return 32;
+        case OP_IO_U64: case OP_IO_I64: return 64;
+        default: return 0;
+    }
+}
+
+static int int_type_signed(uint8_t op) {
+    return op >= OP_IO_I8 && op <= OP_IO_I64;
+}
+
+static void push_int(Buffer* b, uint64_t val, int bits) {
+    if (bits == 8) buf_push(b, (uint8_t)val);
+    else if (bits == 16) buf_push_u16(b, (uint16_t)val);
+    else if (bits == 32) buf_push_u32(b, (uint32_t)val);
+    else buf_push_u64(b, val);
+}
+
+// Value of an integer literal, which has to fit the given width.
+static uint64_t literal_int(Parser* p, Token t, int bits, int is_signed, const char* msg) {
+    IntLiteral v = {0, 0};
+    if (t.type != TOK_NUMBER) return 0; // Reported by whoever expected a number
+    if (!parse_int_literal(t.start, t.length, &v) || !int_literal_fits(v, bits, is_signed)) {
+        parser_error_at(p, t, msg);
+        return 0;
+    }
+    return int_literal_bits(v);
+}
+
+// Same, where the literal may be written signed or unsigned.
+static uint64_t literal_word(Parser* p, Token t, const char* msg) {
+    int is_signed = t.length > 0 && t.start[0] == '-';
+    return literal_int(p, t, 64, is_signed, msg);
+}
+
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
-    // Validate range
-    if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
-        uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
-        uint32_t max = parse_number_u32(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_I8 || type_op == OP_IO_I16 || type_op == OP_IO_I32 || type_op == OP_IO_I64) {
-        int64_t min = parse_number_i64(min_tok.start, min_tok.length);
-        int64_t max = parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_U64) {
-        uint64_t min = (uint64_t)parse_number_i64(min_tok.start, min_tok.length);
-        uint64_t max = (uint64_t)parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
+    int bits = int_type_bits(type_op);
+
+    if (bits > 0) {
+        int is_signed = int_type_signed(type_op);
+        uint64_t min = literal_int(p, min_tok, bits, is_signed, "Range bound does not fit the field's type");
+        uint64_t max = literal_int(p, max_tok, bits, is_signed, "Range bound does not fit the field's type");
+        if (is_signed ? (int64_t)min > (int64_t)max : min > max) {
+            parser_error_at(p, min_tok, "Range min > max");
+            return;
+        }
+        buf_push(p->target, OP_RANGE_CHECK);
+        buf_push(p->target, type_op);
+        push_int(p->target, min, bits);
+        push_int(p->target, max, bits);
     } else if (type_op == OP_IO_F32 || type_op == OP_IO_F64) {
         double min = parse_number_double(min_tok.start, min_tok.length);
         double max = parse_number_double(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    }
-
-    buf_push(p->target, OP_RANGE_CHECK);
-    buf_push(p->target, type_op);
-    
-    if (type_op == OP_IO_U8) {
-        buf_push(p->target, (uint8_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U16) {
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U32) {
-        buf_push_u32(p->target, parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I8) {
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I16) {
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I32) {
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_F32) {
-        float fmin = (float)parse_number_double(min_tok.start, min_tok.length);
-        float fmax = (float)parse_number_double(max_tok.start, max_tok.length);
-        uint32_t imin, imax;
-        memcpy(&imin, &fmin, 4);
-        memcpy(&imax, &fmax, 4);
-        buf_push_u32(p->target, imin);
-        buf_push_u32(p->target, imax);
-    } else if (type_op == OP_IO_U64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_F64) {
-        double dmin = parse_number_double(min_tok.start, min_tok.length);
-        double dmax = parse_number_double(max_tok.start, max_tok.length);
-        uint64_t imin, imax;
-        memcpy(&imin, &dmin, 8);
-        memcpy(&imax, &dmax, 8);
-        buf_push_u64(p->target, imin);
-        buf_push_u64(p->target, imax);
+        if (min > max) { parser_error_at(p, min_tok, "Range min > max"); return; }
+        buf_push(p->target, OP_RANGE_CHECK);
+        buf_push(p->target, type_op);
+        if (type_op == OP_IO_F32) {
+            float fmin = (float)min;
+            float fmax = (float)max;
+            uint32_t imin, imax;
+            memcpy(&imin, &fmin, 4);
+            memcpy(&imax, &fmax, 4);
+            buf_push_u32(p->target, imin);
+            buf_push_u32(p->target, imax);
+        } else {
+            uint64_t imin, imax;
+            memcpy(&imin, &min, 8);
+            memcpy(&imax, &max, 8);
+            buf_push_u64(p->target, imin);
+            buf_push_u64(p->target, imax);
+        }
+    } else {
+        parser_error_at(p, min_tok, "Cannot apply range check to this type");
     }
 }
 
@@ -377,7 +395,7 @@ ExprType parse_primary(Parser* p) {
             buf_push_u64(p->target, bits);
             return TYPE_FLOAT;
         } else {
-            uint64_t val = (uint64_t)parse_number_i64(p->previous.start, p->previous.length);
+            uint64_t val = literal_word(p, p->previous, "Number does not fit 64 bits");
             buf_push(p->target, OP_PUSH_IMM);
             buf_push_u64(p->target, val);
             return TYPE_INT;
@@ -569,11 +587,12 @@ void parse_switch(Parser* p) {
 
     while (p->current.type != TOK_RBRACE && p->current.type != TOK_EOF && !p->had_error) {
         if (p->current.type == TOK_CASE) {
+            Token case_tok = p->current;
             advance(p); // consume case
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
-                val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
+                val = literal_word(p, p->current, "Case value does not fit 64 bits");
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
                 // Enum.Value syntax
@@ -586,7 +605,7 @@ void parse_switch(Parser* p) {
                     
                     EnumDef* edef = enum_reg_find(&p->enums, enum_name.start, enum_name.length);
                     if (!edef) {
-                        parser_error(p, "Enum not found");
+                        parser_error_at(p, enum_name, "Enum not found");
                     } else {
                         int found = 0;
                         for(size_t i=0; i<edef->count; i++) {
@@ -597,7 +616,7 @@ void parse_switch(Parser* p) {
                                 break;
                             }
                         }
-                        if (!found) parser_error(p, "Enum value not found");
+                        if (!found) parser_error_at(p, val_name, "Enum value not found");
                     }
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
@@ -610,7 +629,7 @@ void parse_switch(Parser* p) {
             // Check for duplicates
             for(size_t i=0; i<case_count; i++) {
                 if (cases[i].val == val) {
-                    parser_error(p, "Duplicate case value");
+                    parser_error_at(p, case_tok, "Duplicate case value");
                 }
             }
 
@@ -783,7 +802,7 @@ void parse_field(Parser* p, const char* doc) {
     // Decorator State Variables
     uint32_t array_fixed_count = 0;
     int has_fixed_array_count = 0;
-    uint64_t const_val = 0;
+    Token const_tok = {0};
     int has_const = 0;
     uint8_t field_endian = OP_NOOP; // OP_SET_ENDIAN_* if annotated
     int is_standalone_op = 0;
@@ -839,10 +858,7 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
-                    parser_error(p, "Fill bit must be 0 or 1");
-                }
+                fill_val = (uint8_t)literal_int(p, num, 1, 0, "Fill bit must be 0 or 1");
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -875,17 +891,17 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
-                    array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+                    array_fixed_count = (uint32_t)literal_int(p, num, 32, 0, "Array size does not fit 32 bits"); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
             } else if (match_keyword(dec_name_token, "const") || match_keyword(dec_name_token, "match")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
-                const_val = (uint64_t)parse_number_i64(num.start, num.length); has_const = 1;
+                const_tok = num; has_const = 1;
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
+                uint32_t pad_bits = (uint32_t)literal_int(p, num, 8, 0, "Padding must be 0 to 255 bits"); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
                 }
@@ -896,15 +912,15 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
+                crc_width = (uint32_t)literal_int(p, num, 32, 0, "CRC width must be 16 or 32"); has_crc = 1;
                 if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
                 else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)literal_int(p, num, 32, 0, "CRC polynomial does not fit 32 bits");
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)literal_int(p, num, 32, 0, "CRC initial value does not fit 32 bits");
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)literal_int(p, num, 32, 0, "CRC final xor does not fit 32 bits");
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
@@ -913,16 +929,16 @@ void parse_field(Parser* p, const char* doc) {
                 if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_MUL_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_DIV_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_ADD_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_SUB_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "poly")) {
                 trans_type = CND_TRANS_POLY;
                 while (true) {
@@ -972,7 +988,7 @@ void parse_field(Parser* p, const char* doc) {
                 expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
-                parser_error(p, "Unknown decorator");
+                parser_error_at(p, dec_name_token, "Unknown decorator");
                 while (p->current.type != TOK_RPAREN && p->current.type != TOK_EOF) advance(p);
             }
             consume(p, TOK_RPAREN, "Expect )");
@@ -1030,15 +1046,20 @@ void parse_field(Parser* p, const char* doc) {
     size_t old_field_count = p->current_struct_fields.count;
     strtab_add(&p->current_struct_fields, name_tok.start, name_tok.length);
     if (p->current_struct_fields.count == old_field_count) {
-        parser_error(p, "Field name collision");
+        parser_error_at(p, name_tok, "Field name collision");
     }
 
     uint16_t key_id = strtab_add(&p->strtab, name_tok.start, name_tok.length);
 
     uint8_t bit_width = 0;
+    Token width_tok = {0};
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        width_tok = p->previous;
+        bit_width = (uint8_t)literal_int(p, width_tok, 7, 0, "Bit width does not fit the field's type");
+        if (bit_width == 0 && !p->had_error) {
+            parser_error_at(p, width_tok, "Bit width must be at least 1");
+        }
     }
 
     int is_array_field = 0; 
@@ -1053,7 +1074,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+            array_fixed_count = (uint32_t)literal_int(p, num, 32, 0, "Array size does not fit 32 bits"); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1076,21 +1097,21 @@ void parse_field(Parser* p, const char* doc) {
             if (match_keyword(ptype, "uint8") || match_keyword(ptype, "u8")) arr_prefix_op = OP_ARR_PRE_U8;
             else if (match_keyword(ptype, "uint16") || match_keyword(ptype, "u16")) arr_prefix_op = OP_ARR_PRE_U16;
             else if (match_keyword(ptype, "uint32") || match_keyword(ptype, "u32")) arr_prefix_op = OP_ARR_PRE_U32;
-            else parser_error(p, "Invalid prefix type for variable array");
+            else parser_error_at(p, ptype, "Invalid prefix type for variable array");
         } else if (match_keyword(type_tok, "string")) {
             if (match_keyword(ptype, "uint8") || match_keyword(ptype, "u8")) str_prefix_op = OP_STR_PRE_U8;
             else if (match_keyword(ptype, "uint16") || match_keyword(ptype, "u16")) str_prefix_op = OP_STR_PRE_U16;
             else if (match_keyword(ptype, "uint32") || match_keyword(ptype, "u32")) str_prefix_op = OP_STR_PRE_U32;
-            else parser_error(p, "Invalid prefix type for string");
+            else parser_error_at(p, ptype, "Invalid prefix type for string");
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
         if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)literal_int(p, max_tok, 16, 0, "Maximum string length does not fit 16 bits"); }
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
         if (str_prefix_op == OP_NOOP && !has_until && !has_fixed_array_count && !has_count_ref) {
-            parser_error(p, "String arrays must specify 'prefix' or 'until' or be fixed/dynamic count");
+            parser_error_at(p, type_tok, "String arrays must specify 'prefix' or 'until' or be fixed/dynamic count");
         }
     }
 
@@ -1114,62 +1135,35 @@ void parse_field(Parser* p, const char* doc) {
 
     if (has_const) {
         uint8_t type_op = OP_IO_U16;
-        int is_signed = 0;
-        int width = 0; // 1, 2, 4, 8
         int found = 0;
 
-        #define CHECK_TYPE(t1, t2, t3, op, w, s) \
+        #define CHECK_TYPE(t1, t2, t3, op) \
             if (!found && (match_keyword(type_tok, t1) || (t2 && match_keyword(type_tok, t2)) || (t3 && match_keyword(type_tok, t3)))) { \
-                type_op = op; width = w; is_signed = s; found = 1; \
+                type_op = op; found = 1; \
             }
 
-        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8, 1, 0)
-        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8, 1, 1)
-        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16, 2, 0)
-        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16, 2, 1)
-        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32, 4, 0)
-        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32, 4, 1)
-        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64, 8, 0)
-        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64, 8, 1)
+        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8)
+        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8)
+        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16)
+        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16)
+        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32)
+        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32)
+        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64)
+        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64)
 
         if (!found) {
-             parser_error(p, "Const not supported for this type");
+             parser_error_at(p, type_tok, "Const not supported for this type");
         }
         #undef CHECK_TYPE
 
-        // Validation
-        if (is_signed) {
-            int64_t val_i64 = (int64_t)const_val;
-            int64_t min = 0, max = 0;
-            if (width == 1) { min = -128; max = 127; }
-            else if (width == 2) { min = -32768; max = 32767; }
-            else if (width == 4) { min = -2147483648LL; max = 2147483647LL; }
-            else { min = INT64_MIN; max = INT64_MAX; }
-            
-            if (val_i64 < min || val_i64 > max) {
-                parser_error(p, "Const value out of range for signed type");
-            }
-        } else {
-            uint64_t val_u64 = const_val;
-            uint64_t max = 0;
-            if (width == 1) max = 255;
-            else if (width == 2) max = 65535;
-            else if (width == 4) max = 4294967295ULL;
-            else max = UINT64_MAX;
-            
-            if (val_u64 > max) {
-                parser_error(p, "Const value out of range for unsigned type");
-            }
-        }
-        
+        int bits = int_type_bits(type_op);
+        uint64_t const_val = literal_int(p, const_tok, bits, int_type_signed(type_op),
+                                         "Const value out of range for the field's type");
+
         buf_push(p->target, OP_CONST_CHECK); 
         buf_push_u16(p->target, key_id);
         buf_push(p->target, type_op);
-        
-        if (type_op == OP_IO_U8 || type_op == OP_IO_I8) buf_push(p->target, (uint8_t)const_val);
-        else if (type_op == OP_IO_U16 || type_op == OP_IO_I16) buf_push_u16(p->target, (uint16_t)const_val);
-        else if (type_op == OP_IO_U32 || type_op == OP_IO_I32) buf_push_u32(p->target, (uint32_t)const_val);
-        else if (type_op == OP_IO_U64 || type_op == OP_IO_I64) buf_push_u64(p->target, const_val);
+        push_int(p->target, const_val, bits);
         
         if (has_range) { emit_range_check(p, type_op, range_min_tok, range_max_tok); }
     } else {
@@ -1180,14 +1174,14 @@ void parse_field(Parser* p, const char* doc) {
             if (p->current_struct_name && 
                 type_tok.length == p->current_struct_name_len && 
                 strncmp(type_tok.start, p->current_struct_name, type_tok.length) == 0) {
-                parser_error(p, "Recursive struct definition detected");
+                parser_error_at(p, type_tok, "Recursive struct definition detected");
                 return;
             }
             
-            if (trans_type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to struct field"); }
-            if (has_range) { parser_error(p, "Cannot apply range check to struct field"); }
-            if (has_crc) { parser_error(p, "Cannot apply CRC to struct field"); }
-            if (bit_width > 0) { parser_error(p, "Bitfields not supported for struct fields"); }
+            if (trans_type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/transform to struct field"); }
+            if (has_range) { parser_error_at(p, type_tok, "Cannot apply range check to struct field"); }
+            if (has_crc) { parser_error_at(p, type_tok, "Cannot apply CRC to struct field"); }
+            if (bit_width > 0) { parser_error_at(p, type_tok, "Bitfields not supported for struct fields"); }
 
             if (p->target->size + sdef->bytecode.size > CND_MAX_BYTECODE) {
                 parser_error(p, "Packet is too large");
@@ -1210,9 +1204,9 @@ void parse_field(Parser* p, const char* doc) {
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
-            if (trans_type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/transform to enum field"); }
-            if (has_crc) { parser_error(p, "Cannot apply CRC to enum field"); }
-            if (bit_width > 0) { parser_error(p, "Bitfields not supported for enum fields"); }
+            if (trans_type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/transform to enum field"); }
+            if (has_crc) { parser_error_at(p, type_tok, "Cannot apply CRC to enum field"); }
+            if (bit_width > 0) { parser_error_at(p, type_tok, "Bitfields not supported for enum fields"); }
             
             buf_push(p->target, edef->underlying_type); buf_push_u16(p->target, key_id);
             
@@ -1221,24 +1215,20 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, edef->underlying_type);
             buf_push_u16(p->target, (uint16_t)edef->count);
             for (size_t i = 0; i < edef->count; i++) {
-                int64_t val = edef->values[i].value;
-                if (edef->underlying_type == OP_IO_U8 || edef->underlying_type == OP_IO_I8) buf_push(p->target, (uint8_t)val);
-                else if (edef->underlying_type == OP_IO_U16 || edef->underlying_type == OP_IO_I16) buf_push_u16(p->target, (uint16_t)val);
-                else if (edef->underlying_type == OP_IO_U32 || edef->underlying_type == OP_IO_I32) buf_push_u32(p->target, (uint32_t)val);
-                else if (edef->underlying_type == OP_IO_U64 || edef->underlying_type == OP_IO_I64) buf_push_u64(p->target, (uint64_t)val);
+                push_int(p->target, (uint64_t)edef->values[i].value, int_type_bits(edef->underlying_type));
             }
 
             if (has_range) { emit_range_check(p, edef->underlying_type, range_min_tok, range_max_tok); }
         }
         else if (match_keyword(type_tok, "string")) {
-            if (trans_type != CND_TRANS_NONE) { parser_error(p, "Cannot apply scale/offset/transform to string"); }
-            if (has_range) { parser_error(p, "Cannot apply range check to string"); }
-            if (has_crc) { parser_error(p, "Cannot apply CRC to string"); }
-            if (bit_width > 0) { parser_error(p, "Bitfields only supported for integer types"); }
+            if (trans_type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/offset/transform to string"); }
+            if (has_range) { parser_error_at(p, type_tok, "Cannot apply range check to string"); }
+            if (has_crc) { parser_error_at(p, type_tok, "Cannot apply CRC to string"); }
+            if (bit_width > 0) { parser_error_at(p, type_tok, "Bitfields only supported for integer types"); }
 
             if (str_prefix_op == OP_NOOP) { 
                 if (is_array_field && !has_until) {
-                    parser_error(p, "String array must specify 'prefix' or 'until'");
+                    parser_error_at(p, type_tok, "String array must specify 'prefix' or 'until'");
                 }
                 buf_push(p->target, OP_STR_NULL); buf_push_u16(p->target, key_id); buf_push_u16(p->target, max_len);
             }
@@ -1273,10 +1263,10 @@ void parse_field(Parser* p, const char* doc) {
                  else if (match_keyword(type_tok, "bool")) {
                      op = OP_IO_BIT_BOOL;
                  }
-                 else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
+                 else { parser_error_at(p, type_tok, "Bitfields only supported for integer/bool types"); return; }
                  
                  if (op == OP_IO_BIT_BOOL && bit_width != 1) {
-                     parser_error(p, "A bool bitfield is one bit wide");
+                     parser_error_at(p, width_tok, "A bool bitfield is one bit wide");
                      return;
                  }
 
@@ -1288,7 +1278,7 @@ void parse_field(Parser* p, const char* doc) {
                  }
             } else {
                 if (p->in_bit_mode) {
-                    parser_error(p, "Only integer and bool types allowed in unaligned_bytes struct");
+                    parser_error_at(p, type_tok, "Only integer and bool types allowed in unaligned_bytes struct");
                     return;
                 }
 
@@ -1303,18 +1293,18 @@ void parse_field(Parser* p, const char* doc) {
                 else if (match_keyword(type_tok, "float") || match_keyword(type_tok, "f32")) op = OP_IO_F32;
                 else if (match_keyword(type_tok, "double") || match_keyword(type_tok, "f64")) op = OP_IO_F64;
                 else if (match_keyword(type_tok, "bool")) op = OP_IO_BOOL;
-                else { parser_error(p, "Unknown type"); return; }
+                else { parser_error_at(p, type_tok, "Unknown type"); return; }
                 
                 if (has_crc) {
                      if (crc_width == 16) {
-                         if (op != OP_IO_U16) parser_error(p, "CRC16 requires uint16 type");
+                         if (op != OP_IO_U16) parser_error_at(p, type_tok, "CRC16 requires uint16 type");
                          buf_push(p->target, OP_CRC_16);
                          buf_push_u16(p->target, (uint16_t)crc_poly);
                          buf_push_u16(p->target, (uint16_t)crc_init);
                          buf_push_u16(p->target, (uint16_t)crc_xor);
                          buf_push(p->target, crc_flags);
                      } else if (crc_width == 32) {
-                         if (op != OP_IO_U32) parser_error(p, "CRC32 requires uint32 type");
+                         if (op != OP_IO_U32) parser_error_at(p, type_tok, "CRC32 requires uint32 type");
                          buf_push(p->target, OP_CRC_32);
                          buf_push_u32(p->target, crc_poly);
                          buf_push_u32(p->target, crc_init);
@@ -1376,10 +1366,10 @@ void parse_enum(Parser* p, const char* doc) {
     
     // Check for name collisions
     if (enum_reg_find(&p->enums, name.start, name.length)) {
-        parser_error(p, "Enum name already defined");
+        parser_error_at(p, name, "Enum name already defined");
     }
     if (reg_find(&p->registry, name.start, name.length)) {
-        parser_error(p, "Name collision with Struct");
+        parser_error_at(p, name, "Name collision with Struct");
     }
 
     if (p->verbose) printf("[VERBOSE] Parsing enum '%.*s'\n", name.length, name.start);
@@ -1403,12 +1393,15 @@ void parse_enum(Parser* p, const char* doc) {
         else if (match_keyword(type_tok, "int32") || match_keyword(type_tok, "i32")) def->underlying_type = OP_IO_I32;
         else if (match_keyword(type_tok, "uint64") || match_keyword(type_tok, "u64")) def->underlying_type = OP_IO_U64;
         else if (match_keyword(type_tok, "int64") || match_keyword(type_tok, "i64")) def->underlying_type = OP_IO_I64;
-        else parser_error(p, "Invalid underlying type for enum");
+        else parser_error_at(p, type_tok, "Invalid underlying type for enum");
     }
 
     consume(p, TOK_LBRACE, "Expect {");
     
+    int bits = int_type_bits(def->underlying_type);
+    int is_signed = int_type_signed(def->underlying_type);
     int64_t next_val = 0;
+    int next_fits = 1; // Is there a value after the last one?
     StringBuilder val_doc_sb;
     sb_init(&val_doc_sb);
     
@@ -1427,7 +1420,7 @@ void parse_enum(Parser* p, const char* doc) {
         size_t old_count = value_names.count;
         strtab_add(&value_names, val_name.start, val_name.length);
         if (value_names.count == old_count) {
-            parser_error(p, "Duplicate enum value name");
+            parser_error_at(p, val_name, "Duplicate enum value name");
         }
 
         int64_t val = next_val;
@@ -1435,13 +1428,15 @@ void parse_enum(Parser* p, const char* doc) {
             advance(p);
             Token num = p->current;
             consume(p, TOK_NUMBER, "Expect enum value");
-            val = parse_number_i64(num.start, num.length);
+            val = (int64_t)literal_int(p, num, bits, is_signed, "Enum value does not fit its type");
+        } else if (!next_fits) {
+            parser_error_at(p, val_name, "Enum value does not fit its type");
         }
         
         // Check for duplicate value
         for (size_t i = 0; i < def->count; i++) {
             if (def->values[i].value == val) {
-                parser_error(p, "Duplicate enum value");
+                parser_error_at(p, val_name, "Duplicate enum value");
             }
         }
 
@@ -1458,7 +1453,9 @@ void parse_enum(Parser* p, const char* doc) {
         sb_reset(&val_doc_sb); // Reset for next
         def->count++;
         
-        next_val = val + 1;
+        uint64_t max_val = (UINT64_MAX >> (64 - bits)) >> is_signed;
+        next_fits = ((uint64_t)val != max_val);
+        next_val = (int64_t)((uint64_t)val + 1);
         
         if (p->current.type == TOK_COMMA) advance(p);
     }
@@ -1473,10 +1470,10 @@ void parse_struct(Parser* p, const char* doc) {
     
     // Check for name collisions
     if (reg_find(&p->registry, name.start, name.length)) {
-        parser_error(p, "Struct name already defined");
+        parser_error_at(p, name, "Struct name already defined");
     }
     if (enum_reg_find(&p->enums, name.start, name.length)) {
-        parser_error(p, "Name collision with Enum");
+        parser_error_at(p, name, "Name collision with Enum");
     }
 
     if (p->verbose) printf("[VERBOSE] Parsing struct '%.*s'\n", name.length, name.start);
@@ -1544,10 +1541,10 @@ void parse_packet(Parser* p, const char* doc) {
     
     // Check for name collisions
     if (reg_find(&p->registry, name.start, name.length)) {
-        parser_error(p, "Packet name collides with Struct");
+        parser_error_at(p, name, "Packet name collides with Struct");
     }
     if (enum_reg_find(&p->enums, name.start, name.length)) {
-        parser_error(p, "Packet name collides with Enum");
+        parser_error_at(p, name, "Packet name collides with Enum");
     }
 
     if (p->verbose) printf("[VERBOSE] Parsing packet '%.*s'\n", name.length, name.start);
@@ -1565,7 +1562,7 @@ void parse_packet(Parser* p, const char* doc) {
         
         StructDef* sdef = reg_find(&p->registry, struct_name.start, struct_name.length);
         if (!sdef) {
-            parser_error(p, "Struct not found");
+            parser_error_at(p, struct_name, "Struct not found");
         } else {
             // Inline the struct's bytecode
             buf_append(p->target, sdef->bytecode.data, sdef->bytecode.size);
@@ -1627,7 +1624,7 @@ void parse_import(Parser* p) {
     // Extract string content (Lexer already removed quotes)
     char rel_path[256];
     int len = path_tok.length;
-    if (len >= 256) { parser_error(p, "Import path too long"); return; }
+    if (len >= 256) { parser_error_at(p, path_tok, "Import path too long"); return; }
     memcpy(rel_path, path_tok.start, len);
     rel_path[len] = '\0';
     
@@ -1636,7 +1633,7 @@ void parse_import(Parser* p) {
     free(joined_path);
     
     if (p->import_depth >= CND_MAX_NESTING) {
-        parser_error(p, "Imports nested too deeply");
+        parser_error_at(p, path_tok, "Imports nested too deeply");
         free(full_path);
         return;
     }
@@ -1657,7 +1654,7 @@ void parse_import(Parser* p) {
     if (!f) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
-        parser_error(p, msg);
+        parser_error_at(p, path_tok, msg);
         free(full_path);
         return;
     }
@@ -1710,7 +1707,7 @@ void parse_top_level(Parser* p) {
             
             if (match_keyword(dec, "version")) {
                 consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
-                uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
+                uint32_t v = (uint32_t)literal_int(p, ver, 8, 0, "Version must be 0 to 255"); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 281554d..81f485a 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -358,15 +358,47 @@ int64_t parse_number_i64(const char* start, int length) {
         }
     }
     
-    return neg ? -(int64_t)res : (int64_t)res;
+    return (int64_t)(neg ? 0 - res : res);
 }
 
 double parse_number_double(const char* start, int length) {
-    char buf[64];
-    if (length >= 63) return 0.0;
+    char small[64];
+    char* buf = (length < (int)sizeof(small)) ? small : malloc((size_t)length + 1);
     memcpy(buf, start, length);
     buf[length] = '\0';
-    return strtod(buf, NULL);
+    double val = strtod(buf, NULL);
+    if (buf != small) free(buf);
+    return val;
+}
+
+int parse_int_literal(const char* start, int length, IntLiteral* out) {
+    const char* s = start;
+    const char* end = start + length;
+    uint64_t base = 10;
+
+    out->negative = 0;
+    out->magnitude = 0;
+    if (s < end && *s == '-') { out->negative = 1; s++; }
+    if (end - s >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s += 2; }
+    if (s == end) return 0;
+    for (; s < end; s++) {
+        if (base == 16 ? !is_hex_c(*s) : !is_digit_c(*s)) return 0;
+        uint64_t digit = (uint64_t)hex_char_to_int(*s);
+        if (out->magnitude > (UINT64_MAX - digit) / base) return 0;
+        out->magnitude = out->magnitude * base + digit;
+    }
+    return 1;
+}
+
+int int_literal_fits(IntLiteral v, int bits, int is_signed) {
+    uint64_t max = (bits >= 64) ? UINT64_MAX : ((uint64_t)1 << bits) - 1;
+    if (is_signed) max >>= 1;
+    if (v.negative) return v.magnitude <= (is_signed ? max + 1 : 0);
+    return v.magnitude <= max;
+}
+
+uint64_t int_literal_bits(IntLiteral v) {
+    return v.negative ? 0 - v.magnitude : v.magnitude;
 }
 
 // --- StringBuilder Implementation ---
-- 
2.43.0


From 272a854581e96aea55d1ec602382a74f57a368fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 22/47] fix: emit @optional and transforms at the field they
 belong to and reject decorators it cannot carry

---
 src/compiler/cnd_parser.c | 408 +++++++++++++++++++++-----------------
 1 file changed, 228 insertions(+), 180 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 02ecb98..d4b3b02 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -203,7 +203,6 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
     return left;
 }
 
-static char* append_doc(char* current, Token t);
 
 void parser_error(Parser* p, const char* msg) {
     parser_error_at(p, p->current, msg);
@@ -550,6 +549,7 @@ void parse_if(Parser* p) {
         buf_write_u32_at(p->target, jump_ends[i] + 1, (uint32_t)end_offset);
     }
     free(jump_ends);
+    p->is_bit_count_valid = 0; // Depends on the branch taken
 }
 
 typedef struct {
@@ -557,6 +557,19 @@ typedef struct {
     int32_t offset;
 } SwitchCase;
 
+// A block or a single field, with a scope of its own for field names
+static void parse_case_body(Parser* p, size_t outer_fields) {
+    while (p->current.type == TOK_DOC_COMMENT) advance(p);
+    if (p->current.type == TOK_LBRACE) {
+        parse_block(p);
+    } else {
+        parse_field(p, NULL);
+    }
+    while (p->current_struct_fields.count > outer_fields) {
+        free(p->current_struct_fields.strings[--p->current_struct_fields.count]);
+    }
+}
+
 void parse_switch(Parser* p) {
     if (!enter_nesting(p)) return;
     consume(p, TOK_LPAREN, "Expect ( after switch");
@@ -584,9 +597,12 @@ void parse_switch(Parser* p) {
     size_t jump_cap = 0;
 
     int32_t default_offset = -1; // -1 indicates no default
+    size_t outer_fields = p->current_struct_fields.count;
 
     while (p->current.type != TOK_RBRACE && p->current.type != TOK_EOF && !p->had_error) {
-        if (p->current.type == TOK_CASE) {
+        if (p->current.type == TOK_DOC_COMMENT) {
+            advance(p);
+        } else if (p->current.type == TOK_CASE) {
             Token case_tok = p->current;
             advance(p); // consume case
             
@@ -621,6 +637,8 @@ void parse_switch(Parser* p) {
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
                 }
+            } else {
+                parser_error(p, "Expect case value");
             }
             
             consume(p, TOK_COLON, "Expect : after case value");
@@ -637,16 +655,13 @@ void parse_switch(Parser* p) {
                 case_cap = (case_cap == 0) ? 8 : case_cap * 2;
                 cases = realloc(cases, case_cap * sizeof(SwitchCase));
             }
+            if (case_count >= 0xFFFF) parser_error_at(p, case_tok, "Too many cases");
             cases[case_count].val = val;
             cases[case_count].offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             case_count++;
             
             // Parse body
-            if (p->current.type == TOK_LBRACE) {
-                parse_block(p);
-            } else {
-                parse_field(p, NULL);
-            }
+            parse_case_body(p, outer_fields);
             
             // Emit Jump to end (break)
             size_t jump_loc = buf_current_offset(p->target);
@@ -660,14 +675,11 @@ void parse_switch(Parser* p) {
             jump_fixups[jump_count++] = jump_loc;
 
         } else if (p->current.type == TOK_DEFAULT) {
+            if (default_offset != -1) parser_error(p, "Duplicate default");
             advance(p); consume(p, TOK_COLON, "Expect :");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
-            if (p->current.type == TOK_LBRACE) {
-                parse_block(p);
-            } else {
-                parse_field(p, NULL);
-            }
+            parse_case_body(p, outer_fields);
             
             // Emit Jump to end (break)
             size_t jump_loc = buf_current_offset(p->target);
@@ -775,9 +787,73 @@ void parse_switch(Parser* p) {
     
     if(cases) free(cases);
     if(jump_fixups) free(jump_fixups);
+    p->is_bit_count_valid = 0; // Depends on the case taken
     p->nesting--;
 }
 
+// The position in an unaligned struct is known to be a byte boundary
+static void bit_count_aligned(Parser* p) {
+    if (p->in_bit_mode) {
+        p->current_bit_count = 0;
+        p->is_bit_count_valid = 1;
+    }
+}
+
+// Opcode of a built-in number or bool type, OP_NOOP for any other name
+static uint8_t scalar_type_op(Token t) {
+    static const struct { const char* name; uint8_t op; } types[] = {
+        {"uint8", OP_IO_U8}, {"byte", OP_IO_U8}, {"u8", OP_IO_U8},
+        {"uint16", OP_IO_U16}, {"u16", OP_IO_U16}, {"uint32", OP_IO_U32}, {"u32", OP_IO_U32},
+        {"uint64", OP_IO_U64}, {"u64", OP_IO_U64}, {"int8", OP_IO_I8}, {"i8", OP_IO_I8},
+        {"int16", OP_IO_I16}, {"i16", OP_IO_I16}, {"int32", OP_IO_I32}, {"i32", OP_IO_I32},
+        {"int64", OP_IO_I64}, {"i64", OP_IO_I64}, {"float", OP_IO_F32}, {"f32", OP_IO_F32},
+        {"double", OP_IO_F64}, {"f64", OP_IO_F64}, {"bool", OP_IO_BOOL},
+    };
+    for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); i++) {
+        if (match_keyword(t, types[i].name)) return types[i].op;
+    }
+    return OP_NOOP;
+}
+
+typedef struct {
+    cnd_trans_t type;
+    double scale;
+    double offset;
+    int64_t int_val;
+    double poly[16];
+    uint8_t poly_count;
+    double spline[32];    // x0, y0, x1, y1...
+    uint8_t spline_count; // Number of points (pairs)
+} FieldTransform;
+
+static void push_double(Buffer* b, double val) {
+    uint64_t bits;
+    memcpy(&bits, &val, 8);
+    buf_push_u64(b, bits);
+}
+
+static void emit_transform(Buffer* b, const FieldTransform* t) {
+    switch (t->type) {
+        case CND_TRANS_SCALE_F64:
+            buf_push(b, OP_SCALE_LIN); push_double(b, t->scale); push_double(b, t->offset);
+            break;
+        case CND_TRANS_MUL_I64: buf_push(b, OP_TRANS_MUL); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_DIV_I64: buf_push(b, OP_TRANS_DIV); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_ADD_I64: buf_push(b, OP_TRANS_ADD); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_SUB_I64: buf_push(b, OP_TRANS_SUB); buf_push_u64(b, (uint64_t)t->int_val); break;
+        case CND_TRANS_POLY:
+            buf_push(b, OP_TRANS_POLY); buf_push(b, t->poly_count);
+            for (int i = 0; i < t->poly_count; i++) push_double(b, t->poly[i]);
+            break;
+        case CND_TRANS_SPLINE:
+            buf_push(b, OP_TRANS_SPLINE); buf_push(b, t->spline_count);
+            for (int i = 0; i < t->spline_count * 2; i++) push_double(b, t->spline[i]);
+            break;
+        default:
+            break;
+    }
+}
+
 void parse_field(Parser* p, const char* doc) {
     (void)doc;
     if (p->had_error) return;
@@ -812,27 +888,22 @@ void parse_field(Parser* p, const char* doc) {
     Token range_max_tok = {0};
     
     // Transform state
-    cnd_trans_t trans_type = CND_TRANS_NONE;
-    double trans_scale = 1.0;
-    double trans_offset = 0.0;
-    int64_t trans_int_val = 0;
-    double poly_coeffs[16];
-    uint8_t poly_count = 0;
-    
-    double spline_points[32]; // x0, y0, x1, y1...
-    uint8_t spline_count = 0; // Number of points (pairs)
+    FieldTransform trans = { .type = CND_TRANS_NONE, .scale = 1.0 };
 
     // CRC State
     int has_crc = 0;
     uint32_t crc_width = 0;
-    uint32_t crc_poly = 0;
-    uint32_t crc_init = 0;
-    uint32_t crc_xor = 0;
+    Token crc_width_tok = {0};
+    Token crc_poly_tok = {0};  // Parameters override the width's defaults
+    Token crc_init_tok = {0};
+    Token crc_xor_tok = {0};
+    Token crc_param_tok = {0}; // Last parameter given
     uint8_t crc_flags = 0;
 
     int has_expr = 0;
     ExprType expr_type = TYPE_UNKNOWN;
     int has_eof = 0;
+    int has_optional = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
 
@@ -864,16 +935,13 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, OP_ALIGN_FILL);
             buf_push(p->target, fill_val);
             
-            // Reset bit count on fill (aligns to byte)
-            if (p->in_bit_mode && p->is_bit_count_valid) {
-                p->current_bit_count = 0;
-            }
+            bit_count_aligned(p);
         } else if (match_keyword(dec_name_token, "crc_refin")) {
-            crc_flags |= 1;
+            crc_flags |= 1; crc_param_tok = dec_name_token;
         } else if (match_keyword(dec_name_token, "crc_refout")) {
-            crc_flags |= 2;
+            crc_flags |= 2; crc_param_tok = dec_name_token;
         } else if (match_keyword(dec_name_token, "optional")) {
-            buf_push(p->target, OP_MARK_OPTIONAL);
+            has_optional = 1;
         } else if (match_keyword(dec_name_token, "eof")) {
             has_eof = 1;
         } else { 
@@ -912,41 +980,43 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = (uint32_t)literal_int(p, num, 32, 0, "CRC width must be 16 or 32"); has_crc = 1;
-                if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
-                else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
+                crc_width_tok = num; has_crc = 1;
+                crc_width = (uint32_t)literal_int(p, num, 32, 0, "CRC width must be 16 or 32");
+                if (crc_width != 16 && crc_width != 32 && !p->had_error) {
+                    parser_error_at(p, num, "CRC width must be 16 or 32");
+                }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)literal_int(p, num, 32, 0, "CRC polynomial does not fit 32 bits");
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly_tok = crc_param_tok = num;
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)literal_int(p, num, 32, 0, "CRC initial value does not fit 32 bits");
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init_tok = crc_param_tok = num;
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)literal_int(p, num, 32, 0, "CRC final xor does not fit 32 bits");
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor_tok = crc_param_tok = num;
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
-                trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
+                trans.type = CND_TRANS_SCALE_F64; trans.scale = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "offset")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect offset value");
-                if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
+                if (trans.type != CND_TRANS_SCALE_F64) { trans.type = CND_TRANS_SCALE_F64; trans.scale = 1.0; } trans.offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
+                trans.type = CND_TRANS_MUL_I64; trans.int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
+                trans.type = CND_TRANS_DIV_I64; trans.int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
+                trans.type = CND_TRANS_ADD_I64; trans.int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
+                trans.type = CND_TRANS_SUB_I64; trans.int_val = (int64_t)literal_int(p, num, 64, 1, "Transform operand does not fit 64 bits");
             } else if (match_keyword(dec_name_token, "poly")) {
-                trans_type = CND_TRANS_POLY;
+                trans.type = CND_TRANS_POLY;
                 while (true) {
                     Token num = p->current;
                     if (num.type == TOK_NUMBER) {
                         advance(p);
-                        if (poly_count < 16) {
-                            poly_coeffs[poly_count++] = parse_number_double(num.start, num.length);
+                        if (trans.poly_count < 16) {
+                            trans.poly[trans.poly_count++] = parse_number_double(num.start, num.length);
                         } else {
                             parser_error(p, "Too many polynomial coefficients (max 16)");
                         }
@@ -960,18 +1030,18 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "spline")) {
-                trans_type = CND_TRANS_SPLINE;
+                trans.type = CND_TRANS_SPLINE;
                 while (true) {
                     Token num = p->current;
                     if (num.type == TOK_NUMBER) {
                         advance(p);
-                        if (spline_count < 16) { // 16 pairs = 32 doubles
-                            spline_points[spline_count * 2] = parse_number_double(num.start, num.length);
+                        if (trans.spline_count < 16) { // 16 pairs = 32 doubles
+                            trans.spline[trans.spline_count * 2] = parse_number_double(num.start, num.length);
                             consume(p, TOK_COMMA, "Expect comma between x and y");
                             Token y_tok = p->current;
                             consume(p, TOK_NUMBER, "Expect y value");
-                            spline_points[spline_count * 2 + 1] = parse_number_double(y_tok.start, y_tok.length);
-                            spline_count++;
+                            trans.spline[trans.spline_count * 2 + 1] = parse_number_double(y_tok.start, y_tok.length);
+                            trans.spline_count++;
                         } else {
                             parser_error(p, "Too many spline points (max 16)");
                         }
@@ -999,38 +1069,6 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_SEMICOLON) advance(p);
         return;
     }
-    
-    // Emit CRC
-    if (has_crc) {
-        // Do nothing here, wait until type is parsed
-    }
-    
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
-        }
-    }
 
     Token type_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect field type");
@@ -1074,7 +1112,11 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = (uint32_t)literal_int(p, num, 32, 0, "Array size does not fit 32 bits"); has_fixed_array_count = 1;
+            uint32_t size = (uint32_t)literal_int(p, num, 32, 0, "Array size does not fit 32 bits");
+            if (has_count_ref || has_eof || (has_fixed_array_count && size != array_fixed_count)) {
+                parser_error_at(p, num, "Array size given twice");
+            }
+            array_fixed_count = size; has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1093,7 +1135,7 @@ void parse_field(Parser* p, const char* doc) {
     
     if (match_keyword(p->current, "prefix")) {
         advance(p); Token ptype = p->current; consume(p, TOK_IDENTIFIER, "Expect prefix type");
-        if (is_variable_array && !has_fixed_array_count && !has_count_ref) {
+        if (is_variable_array && !has_fixed_array_count && !has_count_ref && !has_eof) {
             if (match_keyword(ptype, "uint8") || match_keyword(ptype, "u8")) arr_prefix_op = OP_ARR_PRE_U8;
             else if (match_keyword(ptype, "uint16") || match_keyword(ptype, "u16")) arr_prefix_op = OP_ARR_PRE_U16;
             else if (match_keyword(ptype, "uint32") || match_keyword(ptype, "u32")) arr_prefix_op = OP_ARR_PRE_U32;
@@ -1105,17 +1147,61 @@ void parse_field(Parser* p, const char* doc) {
             else parser_error_at(p, ptype, "Invalid prefix type for string");
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
-        if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
+        if (match_keyword(p->current, "until")) { 
+            advance(p); Token until_tok = p->current; consume(p, TOK_NUMBER, "Expect val"); has_until = 1;
+            if (literal_int(p, until_tok, 8, 0, "Strings can only end at 0") != 0) {
+                parser_error_at(p, until_tok, "Strings can only end at 0");
+            }
+        }
         if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)literal_int(p, max_tok, 16, 0, "Maximum string length does not fit 16 bits"); }
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
-        if (str_prefix_op == OP_NOOP && !has_until && !has_fixed_array_count && !has_count_ref) {
+        if (str_prefix_op == OP_NOOP && !has_until && !has_fixed_array_count && !has_count_ref && !has_eof) {
             parser_error_at(p, type_tok, "String arrays must specify 'prefix' or 'until' or be fixed/dynamic count");
         }
     }
 
+    StructDef* sdef = reg_find(&p->registry, type_tok.start, type_tok.length);
+    EnumDef* edef = enum_reg_find(&p->enums, type_tok.start, type_tok.length);
+    int is_string = !sdef && !edef && match_keyword(type_tok, "string");
+    uint8_t scalar_op = (sdef || edef || is_string) ? OP_NOOP : scalar_type_op(type_tok);
+
+    // In an unaligned struct every plain number is a bit field
+    if (p->in_bit_mode && bit_width == 0 && !has_const) {
+        bit_width = (scalar_op == OP_IO_BOOL) ? 1 : (uint8_t)int_type_bits(scalar_op);
+    }
+
+    // What the field cannot carry
+    if (is_variable_array && arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
+        parser_error_at(p, name_tok, "Variable array needs a prefix, @count or @eof");
+    }
+    if (!is_array_field && (has_eof || has_count_ref || has_fixed_array_count)) {
+        parser_error_at(p, name_tok, "@count and @eof need an array field");
+    }
+    if (crc_param_tok.start && !has_crc) {
+        parser_error_at(p, crc_param_tok, "CRC parameters need @crc");
+    }
+    if (has_crc && (is_array_field || bit_width > 0 || has_const || has_expr)) {
+        parser_error_at(p, crc_width_tok, "Cannot apply CRC to this field");
+    }
+    if (has_expr && (sdef || edef || is_string || is_array_field || bit_width > 0 || has_const)) {
+        parser_error_at(p, name_tok, "Cannot apply expression to this field");
+    }
+    if (has_const && bit_width > 0) {
+        parser_error_at(p, const_tok, "Cannot apply const to bitfield");
+    }
+    if (has_range && (bit_width > 0 || has_crc || has_expr || scalar_op == OP_IO_BOOL)) {
+        parser_error_at(p, range_min_tok, "Cannot apply range check to this field");
+    }
+    if (trans.type != CND_TRANS_NONE &&
+        (bit_width > 0 || has_const || has_crc || has_expr || scalar_op == OP_IO_BOOL)) {
+        parser_error_at(p, name_tok, "Cannot apply scale/transform to this field");
+    }
+    if (p->had_error) return;
+
     if (field_endian != OP_NOOP) { buf_push(p->target, field_endian); }
+    if (has_optional && !has_expr) { buf_push(p->target, OP_MARK_OPTIONAL); }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1134,29 +1220,12 @@ void parse_field(Parser* p, const char* doc) {
     }
 
     if (has_const) {
-        uint8_t type_op = OP_IO_U16;
-        int found = 0;
-
-        #define CHECK_TYPE(t1, t2, t3, op) \
-            if (!found && (match_keyword(type_tok, t1) || (t2 && match_keyword(type_tok, t2)) || (t3 && match_keyword(type_tok, t3)))) { \
-                type_op = op; found = 1; \
-            }
-
-        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8)
-        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8)
-        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16)
-        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16)
-        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32)
-        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32)
-        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64)
-        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64)
-
-        if (!found) {
+        uint8_t type_op = scalar_op;
+        int bits = int_type_bits(type_op);
+        if (bits == 0) {
              parser_error_at(p, type_tok, "Const not supported for this type");
+             return;
         }
-        #undef CHECK_TYPE
-
-        int bits = int_type_bits(type_op);
         uint64_t const_val = literal_int(p, const_tok, bits, int_type_signed(type_op),
                                          "Const value out of range for the field's type");
 
@@ -1166,10 +1235,8 @@ void parse_field(Parser* p, const char* doc) {
         push_int(p->target, const_val, bits);
         
         if (has_range) { emit_range_check(p, type_op, range_min_tok, range_max_tok); }
+        bit_count_aligned(p);
     } else {
-        StructDef* sdef = reg_find(&p->registry, type_tok.start, type_tok.length);
-        EnumDef* edef = enum_reg_find(&p->enums, type_tok.start, type_tok.length);
-        
         if (sdef) {
             if (p->current_struct_name && 
                 type_tok.length == p->current_struct_name_len && 
@@ -1178,7 +1245,7 @@ void parse_field(Parser* p, const char* doc) {
                 return;
             }
             
-            if (trans_type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/transform to struct field"); }
+            if (trans.type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/transform to struct field"); }
             if (has_range) { parser_error_at(p, type_tok, "Cannot apply range check to struct field"); }
             if (has_crc) { parser_error_at(p, type_tok, "Cannot apply CRC to struct field"); }
             if (bit_width > 0) { parser_error_at(p, type_tok, "Bitfields not supported for struct fields"); }
@@ -1203,8 +1270,9 @@ void parse_field(Parser* p, const char* doc) {
             }
             
             buf_push(p->target, OP_EXIT_STRUCT);
+            p->is_bit_count_valid = 0; // Not tracked through nested structs
         } else if (edef) {
-            if (trans_type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/transform to enum field"); }
+            if (trans.type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/transform to enum field"); }
             if (has_crc) { parser_error_at(p, type_tok, "Cannot apply CRC to enum field"); }
             if (bit_width > 0) { parser_error_at(p, type_tok, "Bitfields not supported for enum fields"); }
             
@@ -1219,9 +1287,10 @@ void parse_field(Parser* p, const char* doc) {
             }
 
             if (has_range) { emit_range_check(p, edef->underlying_type, range_min_tok, range_max_tok); }
+            bit_count_aligned(p);
         }
-        else if (match_keyword(type_tok, "string")) {
-            if (trans_type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/offset/transform to string"); }
+        else if (is_string) {
+            if (trans.type != CND_TRANS_NONE) { parser_error_at(p, type_tok, "Cannot apply scale/offset/transform to string"); }
             if (has_range) { parser_error_at(p, type_tok, "Cannot apply range check to string"); }
             if (has_crc) { parser_error_at(p, type_tok, "Cannot apply CRC to string"); }
             if (bit_width > 0) { parser_error_at(p, type_tok, "Bitfields only supported for integer types"); }
@@ -1232,85 +1301,59 @@ void parse_field(Parser* p, const char* doc) {
                 }
                 buf_push(p->target, OP_STR_NULL); buf_push_u16(p->target, key_id); buf_push_u16(p->target, max_len);
             }
+            bit_count_aligned(p);
         } else {
-            uint8_t op = OP_NOOP;
-            
-            if (p->in_bit_mode && bit_width == 0) {
-                 if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8") ||
-                     match_keyword(type_tok, "int8") || match_keyword(type_tok, "i8")) bit_width = 8;
-                 else if (match_keyword(type_tok, "uint16") || match_keyword(type_tok, "u16") ||
-                          match_keyword(type_tok, "int16") || match_keyword(type_tok, "i16")) bit_width = 16;
-                 else if (match_keyword(type_tok, "uint32") || match_keyword(type_tok, "u32") ||
-                          match_keyword(type_tok, "int32") || match_keyword(type_tok, "i32")) bit_width = 32;
-                 else if (match_keyword(type_tok, "uint64") || match_keyword(type_tok, "u64") ||
-                          match_keyword(type_tok, "int64") || match_keyword(type_tok, "i64")) bit_width = 64;
-                 else if (match_keyword(type_tok, "bool")) bit_width = 1;
-            }
+            uint8_t op = scalar_op;
 
             if (bit_width > 0) {
-                 if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8") ||
-                     match_keyword(type_tok, "uint16") || match_keyword(type_tok, "u16") ||
-                     match_keyword(type_tok, "uint32") || match_keyword(type_tok, "u32") ||
-                     match_keyword(type_tok, "uint64") || match_keyword(type_tok, "u64")) {
-                     op = OP_IO_BIT_U;
-                 }
-                 else if (match_keyword(type_tok, "int8") || match_keyword(type_tok, "i8") ||
-                          match_keyword(type_tok, "int16") || match_keyword(type_tok, "i16") ||
-                          match_keyword(type_tok, "int32") || match_keyword(type_tok, "i32") ||
-                          match_keyword(type_tok, "int64") || match_keyword(type_tok, "i64")) {
-                     op = OP_IO_BIT_I;
-                 }
-                 else if (match_keyword(type_tok, "bool")) {
-                     op = OP_IO_BIT_BOOL;
+                 if (op == OP_IO_BOOL) {
+                     if (bit_width != 1) {
+                         parser_error_at(p, width_tok, "A bool bitfield is one bit wide");
+                         return;
+                     }
+                     buf_push(p->target, OP_IO_BIT_BOOL); buf_push_u16(p->target, key_id);
+                 } else {
+                     int type_bits = int_type_bits(op);
+                     if (type_bits == 0) {
+                         parser_error_at(p, type_tok, "Bitfields only supported for integer/bool types");
+                         return;
+                     }
+                     if (bit_width > type_bits) {
+                         parser_error_at(p, width_tok, "Bit width does not fit the field's type");
+                         return;
+                     }
+                     buf_push(p->target, int_type_signed(op) ? OP_IO_BIT_I : OP_IO_BIT_U);
+                     buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
                  }
-                 else { parser_error_at(p, type_tok, "Bitfields only supported for integer/bool types"); return; }
-                 
-                 if (op == OP_IO_BIT_BOOL && bit_width != 1) {
-                     parser_error_at(p, width_tok, "A bool bitfield is one bit wide");
-                     return;
-                 }
-
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
-                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width);
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
                  }
             } else {
+                if (op == OP_NOOP) { parser_error_at(p, type_tok, "Unknown type"); return; }
                 if (p->in_bit_mode) {
                     parser_error_at(p, type_tok, "Only integer and bool types allowed in unaligned_bytes struct");
                     return;
                 }
 
-                if (match_keyword(type_tok, "uint8") || match_keyword(type_tok, "byte") || match_keyword(type_tok, "u8")) op = OP_IO_U8;
-                else if (match_keyword(type_tok, "uint16") || match_keyword(type_tok, "u16")) op = OP_IO_U16;
-                else if (match_keyword(type_tok, "uint32") || match_keyword(type_tok, "u32")) op = OP_IO_U32;
-                else if (match_keyword(type_tok, "uint64") || match_keyword(type_tok, "u64")) op = OP_IO_U64;
-                else if (match_keyword(type_tok, "int8") || match_keyword(type_tok, "i8")) op = OP_IO_I8;
-                else if (match_keyword(type_tok, "int16") || match_keyword(type_tok, "i16")) op = OP_IO_I16;
-                else if (match_keyword(type_tok, "int32") || match_keyword(type_tok, "i32")) op = OP_IO_I32;
-                else if (match_keyword(type_tok, "int64") || match_keyword(type_tok, "i64")) op = OP_IO_I64;
-                else if (match_keyword(type_tok, "float") || match_keyword(type_tok, "f32")) op = OP_IO_F32;
-                else if (match_keyword(type_tok, "double") || match_keyword(type_tok, "f64")) op = OP_IO_F64;
-                else if (match_keyword(type_tok, "bool")) op = OP_IO_BOOL;
-                else { parser_error_at(p, type_tok, "Unknown type"); return; }
-                
                 if (has_crc) {
-                     if (crc_width == 16) {
-                         if (op != OP_IO_U16) parser_error_at(p, type_tok, "CRC16 requires uint16 type");
-                         buf_push(p->target, OP_CRC_16);
-                         buf_push_u16(p->target, (uint16_t)crc_poly);
-                         buf_push_u16(p->target, (uint16_t)crc_init);
-                         buf_push_u16(p->target, (uint16_t)crc_xor);
-                         buf_push(p->target, crc_flags);
-                     } else if (crc_width == 32) {
-                         if (op != OP_IO_U32) parser_error_at(p, type_tok, "CRC32 requires uint32 type");
-                         buf_push(p->target, OP_CRC_32);
-                         buf_push_u32(p->target, crc_poly);
-                         buf_push_u32(p->target, crc_init);
-                         buf_push_u32(p->target, crc_xor);
-                         buf_push(p->target, crc_flags);
-                     }
+                     // CCITT-FALSE or the common reflected CRC-32 unless overridden
+                     int is_16 = (crc_width == 16);
+                     const char* misfit = is_16 ? "CRC parameter does not fit 16 bits" : "CRC parameter does not fit 32 bits";
+                     if (is_16 && op != OP_IO_U16) parser_error_at(p, type_tok, "CRC16 requires uint16 type");
+                     if (!is_16 && op != OP_IO_U32) parser_error_at(p, type_tok, "CRC32 requires uint32 type");
+                     uint64_t poly = is_16 ? 0x1021 : 0x04C11DB7;
+                     uint64_t init = is_16 ? 0xFFFF : 0xFFFFFFFF;
+                     uint64_t xor_out = is_16 ? 0 : 0xFFFFFFFF;
+                     if (crc_poly_tok.start) poly = literal_int(p, crc_poly_tok, (int)crc_width, 0, misfit);
+                     if (crc_init_tok.start) init = literal_int(p, crc_init_tok, (int)crc_width, 0, misfit);
+                     if (crc_xor_tok.start) xor_out = literal_int(p, crc_xor_tok, (int)crc_width, 0, misfit);
+
+                     buf_push(p->target, is_16 ? OP_CRC_16 : OP_CRC_32);
+                     push_int(p->target, poly, (int)crc_width);
+                     push_int(p->target, init, (int)crc_width);
+                     push_int(p->target, xor_out, (int)crc_width);
+                     buf_push(p->target, (uint8_t)(crc_flags | (is_16 ? 0 : 3)));
                 } else if (has_expr) {
                     // The value has to have the representation the field is emitted with
                     int is_float_field = (op == OP_IO_F32 || op == OP_IO_F64);
@@ -1318,8 +1361,10 @@ void parse_field(Parser* p, const char* doc) {
                     else if (!is_float_field && expr_type == TYPE_FLOAT) buf_push(p->target, OP_FTOI);
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
+                    if (has_optional) buf_push(p->target, OP_MARK_OPTIONAL);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
                 } else {
+                    emit_transform(p->target, &trans);
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 }
@@ -1327,7 +1372,10 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
     
-    if (is_array_field) { buf_push(p->target, OP_ARR_END); }
+    if (is_array_field) {
+        buf_push(p->target, OP_ARR_END);
+        bit_count_aligned(p);
+    }
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-- 
2.43.0


From 857546fb9735b0ce1735e4083a6aba7a0cd8c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 23/47] fix: report unreadable inputs, failed writes and any
 text as well-formed diagnostics; keep line numbers across multi-line strings

---
 src/compiler/cnd_internal.h |  7 +++++
 src/compiler/cnd_lexer.c    |  5 +++-
 src/compiler/cnd_parser.c   | 24 +++++++++-------
 src/compiler/cnd_utils.c    | 56 +++++++++++++++++++++++++++++++++++++
 src/compiler/cndc.c         | 44 ++++++++++++++++++++---------
 5 files changed, 112 insertions(+), 24 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 699a2fb..8577ce3 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -289,6 +289,13 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
+// Reads a whole file and NUL-terminates it. NULL if it cannot be read (a directory, say).
+// Caller owns the returned buffer.
+char* cnd_read_file(const char* path, size_t* out_len);
+
+// Prints a JSON string literal, quotes included. Bytes that are not UTF-8 become U+FFFD.
+void cnd_print_json_string(const char* s, size_t len);
+
 void parser_error(Parser* p, const char* msg); // At the current token
 void parser_error_at(Parser* p, Token at, const char* msg);
 void advance(Parser* p);
diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index 0b15e2f..d8d513a 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -132,7 +132,10 @@ Token lexer_next(Lexer* lexer) {
             case '"': {
                 token.type = TOK_STRING;
                 token.start = lexer->current;
-                while (*lexer->current != '"' && *lexer->current != '\0') lexer->current++;
+                while (*lexer->current != '"' && *lexer->current != '\0') {
+                    if (*lexer->current == '\n') lexer->line++;
+                    lexer->current++;
+                }
                 token.length = (int)(lexer->current - token.start);
                 if (*lexer->current == '"') lexer->current++;
                 return token;
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index d4b3b02..6a2eff9 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -242,8 +242,13 @@ void parser_error_at(Parser* p, Token at, const char* msg) {
     if (p->json_output) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
-        printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, at.line, msg, at.length, at.start);
+        printf("{\"file\": ");
+        cnd_print_json_string(p->current_path, strlen(p->current_path));
+        printf(", \"line\": %d, \"message\": ", at.line);
+        cnd_print_json_string(msg, strlen(msg));
+        printf(", \"token\": ");
+        cnd_print_json_string(at.start, (size_t)at.length);
+        printf("}\n");
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
@@ -1645,6 +1650,8 @@ void parse_packet(Parser* p, const char* doc) {
 
 // Helper to resolve path relative to base
 char* resolve_path(const char* base, const char* rel) {
+    if (rel[0] == '/') return strdup(rel);
+
     // Find last slash in base
     const char* last_slash = strrchr(base, '/');
     const char* last_backslash = strrchr(base, '\\');
@@ -1670,9 +1677,10 @@ void parse_import(Parser* p) {
     consume(p, TOK_RPAREN, "Expect ) after import path");
     
     // Extract string content (Lexer already removed quotes)
-    char rel_path[256];
+    char rel_path[4096];
     int len = path_tok.length;
-    if (len >= 256) { parser_error_at(p, path_tok, "Import path too long"); return; }
+    if (p->had_error) return;
+    if (len >= (int)sizeof(rel_path)) { parser_error_at(p, path_tok, "Import path too long"); return; }
     memcpy(rel_path, path_tok.start, len);
     rel_path[len] = '\0';
     
@@ -1698,8 +1706,8 @@ void parse_import(Parser* p) {
     strtab_add(&p->imports, full_path, (int)strlen(full_path));
     
     // Read file
-    FILE* f = fopen(full_path, "rb");
-    if (!f) {
+    char* source = cnd_read_file(full_path, NULL);
+    if (!source) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
         parser_error_at(p, path_tok, msg);
@@ -1707,10 +1715,6 @@ void parse_import(Parser* p) {
         return;
     }
     
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
-    
     // Save state
     Lexer old_lexer = p->lexer;
     Token old_cur = p->current;
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 81f485a..0612ecb 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -28,6 +28,62 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
+char* cnd_read_file(const char* path, size_t* out_len) {
+    FILE* f = fopen(path, "rb");
+    if (!f) return NULL;
+
+    // In pieces, as the size of a pipe or a directory cannot be asked for
+    size_t size = 0;
+    size_t capacity = 4096;
+    char* data = malloc(capacity);
+    for (;;) {
+        size_t n = fread(data + size, 1, capacity - size - 1, f);
+        size += n;
+        if (n == 0) break;
+        if (capacity - size < 2) {
+            capacity *= 2;
+            data = realloc(data, capacity);
+        }
+    }
+    int failed = ferror(f);
+    fclose(f);
+    if (failed) {
+        free(data);
+        return NULL;
+    }
+    data[size] = '\0';
+    if (out_len) *out_len = size;
+    return data;
+}
+
+// Length of the UTF-8 sequence at s, 0 if there is no valid one
+static size_t utf8_length(const unsigned char* s, size_t left) {
+    size_t n = (s[0] < 0x80) ? 1 : (s[0] >= 0xC2 && s[0] < 0xE0) ? 2
+             : (s[0] >= 0xE0 && s[0] < 0xF0) ? 3 : (s[0] >= 0xF0 && s[0] < 0xF5) ? 4 : 0;
+    if (n == 0 || n > left) return 0;
+    for (size_t i = 1; i < n; i++) {
+        if ((s[i] & 0xC0) != 0x80) return 0;
+    }
+    // Overlong forms, surrogates, beyond U+10FFFF
+    if ((s[0] == 0xE0 && s[1] < 0xA0) || (s[0] == 0xED && s[1] > 0x9F) ||
+        (s[0] == 0xF0 && s[1] < 0x90) || (s[0] == 0xF4 && s[1] > 0x8F)) return 0;
+    return n;
+}
+
+void cnd_print_json_string(const char* str, size_t len) {
+    const unsigned char* s = (const unsigned char*)str;
+    putchar('"');
+    for (size_t i = 0; i < len; ) {
+        size_t n = utf8_length(s + i, len - i);
+        if (n == 0) { fputs("\\ufffd", stdout); n = 1; }
+        else if (s[i] == '"' || s[i] == '\\') printf("\\%c", s[i]);
+        else if (s[i] < 0x20 || s[i] == 0x7F) printf("\\u%04x", s[i]);
+        else fwrite(s + i, 1, n, stdout);
+        i += n;
+    }
+    putchar('"');
+}
+
 // Whether the instruction has a key right behind the opcode
 static int has_key(uint8_t op) {
     switch (op) {
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 649440e..f27d5f0 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -53,22 +53,33 @@ static void optimize_strings(Parser* p) {
     free(use.map);
 }
 
+// Errors that have no place in the source
+static void print_json_error(const char* what, const char* path) {
+    StringBuilder msg;
+    sb_init(&msg);
+    sb_append(&msg, what);
+    sb_append(&msg, path);
+    printf("{\"status\": \"error\", \"file\": ");
+    cnd_print_json_string(path, strlen(path));
+    printf(", \"line\": 0, \"message\": ");
+    cnd_print_json_string(msg.data, msg.length);
+    printf("}\n");
+    sb_free(&msg);
+}
+
 // Implementation of cnd_compile_file using the new modular structure
 int cnd_compile_file(const char* in_path, const char* out_path, int json_output, int verbose) {
     setbuf(stdout, NULL); // Ensure debug prints are flushed immediately
     char* canonical_in_path = cnd_canonicalize_path(in_path);
     const char* open_path = canonical_in_path ? canonical_in_path : in_path;
 
-    FILE* f = fopen(open_path, "rb");
-    if (!f) { 
-        if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
+    char* source = cnd_read_file(open_path, NULL);
+    if (!source) { 
+        if (json_output) print_json_error("Error opening input file: ", open_path);
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
     }
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
 
     Parser p;
     memset(&p, 0, sizeof(Parser)); // Zero init
@@ -99,7 +110,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
-            if (json_output) printf("{\"status\": \"error\", \"message\": \"Error opening output file: %s\"}\n", out_path);
+            if (json_output) print_json_error("Error opening output file: ", out_path);
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
@@ -117,12 +128,19 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
             
             fwrite(p.global_bc.data, 1, p.global_bc.size, out);
             
-            fclose(out);
-            if (json_output) {
-                // Escape paths for JSON (simple check)
-                // For now assuming paths don't have crazy characters, but in production should be escaped properly
-                printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-                    in_path, out_path, p.strtab.count, p.global_bc.size);
+            int failed = ferror(out);
+            if (fclose(out) != 0) failed = 1;
+            if (failed) {
+                if (json_output) print_json_error("Error writing output file: ", out_path);
+                else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error writing output file: %s\n", out_path);
+                ret = 1;
+            } else if (json_output) {
+                printf("{\"status\": \"success\", \"input\": ");
+                cnd_print_json_string(in_path, strlen(in_path));
+                printf(", \"output\": ");
+                cnd_print_json_string(out_path, strlen(out_path));
+                printf(", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
+                    p.strtab.count, p.global_bc.size);
             } else {
                 printf(COLOR_BOLD COLOR_GREEN "[SUCCESS]" COLOR_RESET " Compiled " COLOR_CYAN "%s" COLOR_RESET "\n", in_path);
                 printf("  " COLOR_BOLD "Output:" COLOR_RESET "   %s\n", out_path);
-- 
2.43.0


From fda8719da1a11a86c6f18af4bacdc1a427e42948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 24/47] fix: JSON binding keeps array, struct and context state
 straight, converts values exactly, and the CLI reports every failure

---
 include/cli_helpers.h  |  47 ++-
 src/cli/cli_helpers.c  |  73 ++--
 src/cli/cmd_decode.c   |  62 ++--
 src/cli/cmd_encode.c   |  97 ++++--
 src/cli/json_binding.c | 767 ++++++++++++++++++++++++-----------------
 5 files changed, 614 insertions(+), 432 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 0fd7b66..9727a21 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -28,25 +28,46 @@ int load_il(const char* path, ILFile* il);
 void free_il(ILFile* il);
 
 // --- VM IO Callback (JSON Binding) ---
+
+// An object being filled or read
+typedef struct {
+    cJSON* object;
+    const char* name; // Full key name, NULL for the record itself
+} JSONStruct;
+
+// An array being filled or read
+typedef struct {
+    cJSON* item;
+    cJSON* next;        // Encode: the next element
+    int start_depth;    // Struct depth its elements are at
+    bool until_end;
+
+    const char* hex_in; // Encode: rest of a hex string given instead of an array
+    bool is_hex;        // Decode: bytes are collected into a hex string
+    char* hex;
+    size_t hex_len;
+    size_t hex_cap;
+} JSONArray;
+
 typedef struct {
     ILFile* il;
-    cJSON* stack[32]; // Stack for nested objects
+    const cnd_program* program;
+    int hex_mode; // Flag to enable hex string output for byte arrays
+
+    JSONStruct* stack; // Stack for nested objects
+    int stack_cap;
     int depth;
 
-    // For robust array handling
-    cJSON* array_stack[32]; // Stack for current array cJSON object
-    int array_index_stack[32]; // Stack for current index within that array
-    int array_start_depth[32]; // Stack for io->depth when array started
-    int array_depth; // Current depth in array stack
-    
-    int hex_mode; // Flag to enable hex string output for byte arrays
+    JSONArray arrays[CND_MAX_LOOP_DEPTH]; // Stack for nested arrays
+    int array_depth;
 
-    // State for hex string accumulation for current byte array
-    bool in_hex_byte_array;
-    char* hex_str_buffer;
-    size_t hex_str_buffer_len;
-    size_t hex_str_buffer_capacity;
+    bool full;  // Encode: the space ended before the elements of an until-end array
+    // Encode: an until-end array ran out of elements at this position
+    bool ended;
+    size_t end;
 } IOCtx;
+int json_io_init(IOCtx* io, ILFile* il, const cnd_program* program, cJSON* root, int hex_mode);
+void json_io_free(IOCtx* io);
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr);
 
 
diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..be3f53a 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -4,52 +4,35 @@
 #include <stdint.h>
 #include "cli_helpers.h"
 
+// Defined in src/compiler/cnd_utils.c
+extern char* cnd_read_file(const char* path, size_t* out_len);
+
 // =================================================================================================
 // File IO Helpers
 // =================================================================================================
 
 uint8_t* read_file_bytes(const char* path, size_t* out_len) {
-    FILE* f = fopen(path, "rb");
-    if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
-    fclose(f);
-    if (out_len) *out_len = size;
-    return buf;
+    return (uint8_t*)cnd_read_file(path, out_len);
 }
 
 char* read_file_text(const char* path) {
-    FILE* f = fopen(path, "rb");
-    if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
-    }
-    fclose(f);
-    return buf;
+    return cnd_read_file(path, NULL);
 }
 
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
     FILE* f = fopen(path, "wb");
     if (!f) return 0;
-    fwrite(data, 1, len, f);
-    fclose(f);
-    return 1;
+    int ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 int write_file_text(const char* path, const char* text) {
     FILE* f = fopen(path, "w");
     if (!f) return 0;
-    fputs(text, f);
-    fclose(f);
-    return 1;
+    int ok = fputs(text, f) >= 0;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 // =================================================================================================
@@ -57,34 +40,38 @@ int write_file_text(const char* path, const char* text) {
 // =================================================================================================
 
 int load_il(const char* path, ILFile* il) {
+    cnd_program program;
+
+    memset(il, 0, sizeof(*il));
     il->raw_data = read_file_bytes(path, &il->raw_len);
     if (!il->raw_data) return 0;
-    
-    if (il->raw_len < 16 || memcmp(il->raw_data, "CNDIL", 5) != 0) {
-        printf("Invalid IL file magic\n");
+
+    if (cnd_program_load_il(&program, il->raw_data, il->raw_len) != CND_ERR_OK) {
+        printf("Invalid IL file\n");
+        free_il(il);
         return 0;
     }
-    
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
-    
-    if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
 
-    il->string_table = malloc(il->str_count * sizeof(char*));
-    const char* ptr = (const char*)(il->raw_data + str_offset);
+    il->str_count = program.string_count;
+    il->string_table = malloc((il->str_count + 1) * sizeof(char*));
+    if (!il->string_table) {
+        free_il(il);
+        return 0;
+    }
+    const char* ptr = program.string_table;
     for (int i = 0; i < il->str_count; i++) {
         il->string_table[i] = ptr;
         ptr += strlen(ptr) + 1;
     }
-    
-    il->bytecode = il->raw_data + bc_offset;
-    il->bytecode_len = il->raw_len - bc_offset;
-    
+
+    il->bytecode = program.bytecode;
+    il->bytecode_len = program.bytecode_len;
+
     return 1;
 }
 
 void free_il(ILFile* il) {
     if (il->raw_data) free(il->raw_data);
     if (il->string_table) free(il->string_table);
+    memset(il, 0, sizeof(*il));
 }
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index d6dff1d..c1f0775 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -10,50 +10,52 @@ int cmd_decode(int argc, char** argv) {
     if (argc >= 6 && strcmp(argv[5], "--hex") == 0) {
         hex_mode = 1;
     }
-    
+
     ILFile il;
     if (!load_il(argv[2], &il)) { printf("Failed to load IL\n"); return 1; }
     
+    cnd_program program;
+    cnd_program_load(&program, il.bytecode, il.bytecode_len);
+    cnd_error_t err = cnd_verify_program(&program);
+    if (err != CND_ERR_OK) {
+        printf("Invalid IL program: %s\n", cnd_error_string(err));
+        free_il(&il);
+        return 1;
+    }
+
     size_t bin_len;
     uint8_t* bin_data = read_file_bytes(argv[3], &bin_len);
-    if (!bin_data) { printf("Failed to read binary\n"); return 1; }
-    
+    if (!bin_data) { printf("Failed to read binary\n"); free_il(&il); return 1; }
+
     cJSON* root = cJSON_CreateObject();
-    static IOCtx io_ctx; // Made static to persist
-    memset(&io_ctx, 0, sizeof(IOCtx)); // Initialize all fields to 0
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
-    io_ctx.hex_mode = hex_mode;
-    io_ctx.in_hex_byte_array = false; // Initialize new hex-related fields
-    io_ctx.hex_str_buffer = NULL;
-    io_ctx.hex_str_buffer_len = 0;
-    io_ctx.hex_str_buffer_capacity = 0;
-    
-    cnd_vm_ctx vm;
-    cnd_program program;
-    cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_DECODE, &program, bin_data, bin_len, json_io_callback, &io_ctx);
-    
-    cnd_error_t err = cnd_execute(&vm);
+    IOCtx io_ctx;
+    char* out_json = NULL;
+    if (root && json_io_init(&io_ctx, &il, &program, root, hex_mode)) {
+        cnd_vm_ctx vm;
+        cnd_init(&vm, CND_MODE_DECODE, &program, bin_data, bin_len, json_io_callback, &io_ctx);
+        err = cnd_execute(&vm);
+        json_io_free(&io_ctx);
+        if (err == CND_ERR_OK) out_json = cJSON_Print(root);
+    }
+    cJSON_Delete(root);
+    free(bin_data);
+    free_il(&il);
+
     if (err != CND_ERR_OK) {
         printf("VM Error: %d\n", err);
         return 1;
     }
-    
-    char* out_json = cJSON_Print(root);
     if (!out_json) {
         printf("Failed to render JSON\n");
         return 1;
     }
-    
-    write_file_text(argv[4], out_json);
-    printf("Decoded to %s\n", argv[4]);
-    
+
+    int written = write_file_text(argv[4], out_json);
     free(out_json);
-    cJSON_Delete(root);
-    free(bin_data);
-    free_il(&il);
+    if (!written) {
+        printf("Failed to write %s\n", argv[4]);
+        return 1;
+    }
+    printf("Decoded to %s\n", argv[4]);
     return 0;
 }
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index fa46d91..30acb73 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -1,52 +1,87 @@
 #include "cli_helpers.h"
 
+// Packets are built in memory
+#define MAX_PACKET_SIZE ((size_t)64 << 20)
+
+// Encodes into a new buffer of the given capacity
+static cnd_error_t encode_into(ILFile* il, cJSON* root, size_t capacity, uint8_t** out, cnd_vm_ctx* vm, IOCtx* io_ctx) {
+    cnd_program program;
+    cnd_program_load(&program, il->bytecode, il->bytecode_len);
+
+    *out = calloc(capacity ? capacity : 1, 1);
+    if (!*out || !json_io_init(io_ctx, il, &program, root, 0)) return CND_ERR_CALLBACK;
+
+    cnd_init(vm, CND_MODE_ENCODE, &program, *out, capacity, json_io_callback, io_ctx);
+    return cnd_execute(vm);
+}
+
 int cmd_encode(int argc, char** argv) {
     if (argc < 5) {
         printf("Usage: cnd encode <schema.il> <input.json> <output.bin>\n");
         return 1;
     }
-    
+
     ILFile il;
     if (!load_il(argv[2], &il)) { printf("Failed to load IL\n"); return 1; }
-    
+
+    cnd_program program;
+    cnd_program_load(&program, il.bytecode, il.bytecode_len);
+    cnd_error_t err = cnd_verify_program(&program);
+    if (err != CND_ERR_OK) {
+        printf("Invalid IL program: %s\n", cnd_error_string(err));
+        free_il(&il);
+        return 1;
+    }
+
     char* json_text = read_file_text(argv[3]);
-    if (!json_text) { printf("Failed to read JSON\n"); return 1; }
-    
+    if (!json_text) { printf("Failed to read JSON\n"); free_il(&il); return 1; }
+
     cJSON* root = cJSON_Parse(json_text);
     free(json_text);
-    if (!root) { printf("Failed to parse JSON\n"); return 1; }
-    
-    // Encode
-    uint8_t buffer[1024]; 
-    memset(buffer, 0, sizeof(buffer));
-    
-    static IOCtx io_ctx; // Made static to persist
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
-    
+    if (!root) { printf("Failed to parse JSON\n"); free_il(&il); return 1; }
+
+    // Encode. The size of the packet is not known beforehand: grow until it fits, and
+    // stop at the end of an until-end array, which would fill whatever space there is.
+    uint8_t* buffer = NULL;
     cnd_vm_ctx vm;
-    cnd_program program;
-    cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, sizeof(buffer), json_io_callback, &io_ctx);
-    
-    cnd_error_t err = cnd_execute(&vm);
-    //fprintf(stderr, "DEBUG: cnd_execute returned %d\n", err);
+    IOCtx io_ctx;
+    size_t capacity = 1024;
+    bool exact = false;
+    for (;;) {
+        memset(&io_ctx, 0, sizeof(io_ctx));
+        err = encode_into(&il, root, capacity, &buffer, &vm, &io_ctx);
+        bool ended = io_ctx.ended;
+        bool full = io_ctx.full;
+        size_t end = io_ctx.end;
+        json_io_free(&io_ctx);
+
+        if (err == CND_ERR_CALLBACK && ended && !exact) {
+            exact = true;
+            capacity = end;
+        } else if ((err == CND_ERR_OOB || full) && !exact && capacity < MAX_PACKET_SIZE) {
+            capacity *= 2;
+        } else {
+            break;
+        }
+        free(buffer);
+        buffer = NULL;
+    }
+    cJSON_Delete(root);
+    free_il(&il);
+
     if (err != CND_ERR_OK) {
         fprintf(stderr, "VM Error: %d\n", err);
+        free(buffer);
         return 1;
     }
-    
-    // fprintf(stderr, "DEBUG: Writing file...\n");
+
     size_t final_len = vm.cursor;
     if (vm.bit_offset > 0) final_len++;
-    write_file_bytes(argv[4], buffer, final_len);
-    // fprintf(stderr, "Encoded %zu bytes to %s\n", final_len, argv[4]);
-    
-    // fprintf(stderr, "DEBUG: Cleaning up...\n");
-    cJSON_Delete(root);
-    free_il(&il);
-    // fprintf(stderr, "DEBUG: Done.\n");
+    int written = write_file_bytes(argv[4], buffer, final_len);
+    free(buffer);
+    if (!written) {
+        fprintf(stderr, "Failed to write %s\n", argv[4]);
+        return 1;
+    }
     return 0;
 }
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 96b178d..5c57c56 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -2,380 +2,517 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <math.h>
+#include <inttypes.h>
 #include "cli_helpers.h"
 #include <cJSON.h>
 #include "concordia.h"
 #include "compiler.h"
+#include "../vm/vm_internal.h"
 
 // =================================================================================================
 // JSON IO Callback & Helpers
 // =================================================================================================
 
-static void append_hex_byte(IOCtx* io, uint8_t byte) {
-    if (io->hex_str_buffer_len + 3 > io->hex_str_buffer_capacity) {
-        io->hex_str_buffer_capacity = (io->hex_str_buffer_capacity == 0) ? 64 : io->hex_str_buffer_capacity * 2;
-        char* new_ptr = realloc(io->hex_str_buffer, io->hex_str_buffer_capacity);
-        if (!new_ptr) return; // OOM
-        io->hex_str_buffer = new_ptr;
-    }
-    sprintf(io->hex_str_buffer + io->hex_str_buffer_len, "%02X", byte);
-    io->hex_str_buffer_len += 2;
+// cJSON refuses to parse text nested deeper than this
+#define MAX_JSON_DEPTH CJSON_NESTING_LIMIT
+
+// --- Contexts ---
+
+int json_io_init(IOCtx* io, ILFile* il, const cnd_program* program, cJSON* root, int hex_mode) {
+    memset(io, 0, sizeof(*io));
+    io->il = il;
+    io->program = program;
+    io->hex_mode = hex_mode;
+    io->stack_cap = 16;
+    io->stack = malloc(io->stack_cap * sizeof(*io->stack));
+    if (!io->stack) return 0;
+    io->stack[0].object = root;
+    io->stack[0].name = NULL;
+    return 1;
 }
 
-static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
-    // Determine if this array should be treated as a Hex String (byte array)
-    bool is_hex_array = false;
-    if (io->hex_mode && ctx->mode == CND_MODE_DECODE) {
-        if (type == OP_RAW_BYTES) {
-            is_hex_array = true;
-        } else {
-            // Peek IL for element type
-            const uint8_t* ip = ctx->program->bytecode + ctx->ip;
-            const uint8_t* end = ctx->program->bytecode + ctx->program->bytecode_len;
-            if (ip < end) {
-                // Skip current instruction args to find NEXT instruction
-                if (type == OP_ARR_FIXED) ip += 6; // Key(2) + Count(4)
-                else ip += 2; // Key(2) for ARR_PRE
-                
-                if (ip < end && *ip == OP_IO_U8) is_hex_array = true;
-            }
-        }
+void json_io_free(IOCtx* io) {
+    for (int i = 0; i < io->array_depth; i++) free(io->arrays[i].hex);
+    free(io->stack);
+    memset(io, 0, sizeof(*io));
+}
+
+static cnd_error_t push_struct(IOCtx* io, cJSON* object, const char* name) {
+    if (!object || io->depth + 1 >= MAX_JSON_DEPTH) return CND_ERR_CALLBACK;
+    if (io->depth + 1 >= io->stack_cap) {
+        int cap = io->stack_cap * 2;
+        JSONStruct* grown = realloc(io->stack, cap * sizeof(*grown));
+        if (!grown) return CND_ERR_CALLBACK;
+        io->stack = grown;
+        io->stack_cap = cap;
     }
+    io->depth++;
+    io->stack[io->depth].object = object;
+    io->stack[io->depth].name = name;
+    return CND_ERR_OK;
+}
 
-    if (ctx->mode == CND_MODE_ENCODE) {
-        cJSON* item = cJSON_GetObjectItem(parent, key_name);
-        if (!item || (!cJSON_IsArray(item) && !(type == OP_RAW_BYTES && cJSON_IsString(item)))) {
-            // If missing or wrong type, write 0 length
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
-            else if (type == OP_ARR_FIXED) *(uint32_t*)ptr = 0;
-            // For RAW_BYTES encode, we need to handle data copy elsewhere or fail here
-            return CND_ERR_OK; // Treat as empty/skip
-        }
-        
-        // Push stack
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        io->array_stack[io->array_depth] = item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
-
-        // Write length
-        if (type != OP_RAW_BYTES && type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
-            int len = cJSON_GetArraySize(item);
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = (uint32_t)len;
-        }
-    } else { // DECODE
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        
-        cJSON* new_item;
-        if (is_hex_array) {
-            new_item = cJSON_CreateString(""); // Placeholder
-            io->in_hex_byte_array = true;
-            io->hex_str_buffer_len = 0;
-            if (io->hex_str_buffer) free(io->hex_str_buffer);
-            io->hex_str_buffer = NULL;
-            io->hex_str_buffer_capacity = 0;
-        } else {
-            new_item = cJSON_CreateArray();
-        }
-        
-        cJSON_AddItemToObject(parent, key_name, new_item);
-        
-        io->array_stack[io->array_depth] = new_item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
+static JSONArray* push_array(IOCtx* io, cJSON* item) {
+    if (io->array_depth >= CND_MAX_LOOP_DEPTH) return NULL;
+    JSONArray* arr = &io->arrays[io->array_depth++];
+    memset(arr, 0, sizeof(*arr));
+    arr->item = item;
+    arr->next = cJSON_IsArray(item) ? item->child : NULL;
+    arr->start_depth = io->depth;
+    return arr;
+}
+
+// The array the next value belongs to, NULL if it belongs to the current object
+static JSONArray* current_array(IOCtx* io) {
+    if (io->array_depth == 0) return NULL;
+    JSONArray* arr = &io->arrays[io->array_depth - 1];
+    return arr->start_depth == io->depth ? arr : NULL;
+}
+
+// Takes ownership of val
+static cnd_error_t add_value(IOCtx* io, const char* key_name, cJSON* val) {
+    JSONArray* arr = current_array(io);
+    if (!val) return CND_ERR_CALLBACK;
+    cJSON_bool added = arr ? cJSON_AddItemToArray(arr->item, val)
+                           : cJSON_AddItemToObject(io->stack[io->depth].object, key_name, val);
+    if (!added) {
+        cJSON_Delete(val);
+        return CND_ERR_CALLBACK;
     }
     return CND_ERR_OK;
 }
 
-static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
-    if (ctx->mode == CND_MODE_ENCODE) {
-        if (!item) {
-            // Allow implicit zero/empty if not found - write only the correct size
-            switch (type) {
-                case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
-                case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
-                case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
-                case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
-                default: break;
-            }
-            return CND_ERR_OK;
-        }
-        // Extract value
-        switch (type) {
-            case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)item->valueint; break;
-            case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)item->valueint; break;
-            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)item->valueint; break;
-            case OP_IO_U64: *(uint64_t*)ptr = (uint64_t)item->valuedouble; break;
-            case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)item->valueint; break;
-            case OP_IO_I16: *(int16_t*)ptr  = (int16_t)item->valueint; break;
-            case OP_IO_I32: *(int32_t*)ptr  = (int32_t)item->valueint; break;
-            case OP_IO_I64: *(int64_t*)ptr  = (int64_t)item->valuedouble; break;
-            case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
-            case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
-            case OP_IO_BIT_U: *(uint64_t*)ptr = (uint64_t)item->valueint; break;
-            case OP_IO_BIT_I: *(int64_t*)ptr  = (int64_t)item->valueint; break;
-            case OP_IO_BOOL:
-            case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
-            case OP_STR_NULL: 
-            case OP_STR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_STR_PRE_U32: {
-                const char* s = cJSON_IsString(item) ? item->valuestring : "";
-                *(const char**)ptr = s;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                // Encode Hex String to Bytes
-                if (cJSON_IsString(item)) {
-                    const char* hex = item->valuestring;
-                    size_t len = strlen(hex);
-                    uint8_t* b = (uint8_t*)ptr;
-                    for(size_t i=0; i<len/2; i++) {
-                        sscanf(hex + i*2, "%2hhX", &b[i]);
-                    }
-                }
-                break;
-            }
+// --- Names ---
+
+// Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
+static const char* get_json_key(const char* key_name) {
+    const char* dot = strrchr(key_name, '.');
+    return dot ? (dot + 1) : key_name;
+}
+
+// Follows a dot-separated path down from an object
+static cJSON* find_path(cJSON* object, const char* path) {
+    while (object) {
+        size_t len = strcspn(path, ".");
+        cJSON* child = object->child;
+        while (child && !(child->string && strlen(child->string) == len && strncmp(child->string, path, len) == 0)) {
+            child = child->next;
         }
-    } else { // DECODE
-        // Special case: Hex Byte accumulation
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
+        if (!child || path[len] == '\0') return child;
+        object = child;
+        path += len + 1;
+    }
+    return NULL;
+}
+
+// Finds the value a full name refers to, from the innermost enclosing struct outwards
+static cJSON* find_value(IOCtx* io, const char* name) {
+    for (int i = io->depth; i >= 0; i--) {
+        const char* rest = name;
+        if (i > 0) {
+            size_t len = strlen(io->stack[i].name);
+            if (strncmp(name, io->stack[i].name, len) != 0 || name[len] != '.') continue;
+            rest = name + len + 1;
         }
+        cJSON* item = find_path(io->stack[i].object, rest);
+        if (item) return item;
+    }
+    return NULL;
+}
 
-        cJSON* val = NULL;
-        switch (type) {
-            case OP_IO_U8:  val = cJSON_CreateNumber(*(uint8_t*)ptr); break;
-            case OP_IO_U16: val = cJSON_CreateNumber(*(uint16_t*)ptr); break;
-            case OP_IO_U32: val = cJSON_CreateNumber(*(uint32_t*)ptr); break;
-            case OP_IO_U64: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8:  val = cJSON_CreateNumber(*(int8_t*)ptr); break;
-            case OP_IO_I16: val = cJSON_CreateNumber(*(int16_t*)ptr); break;
-            case OP_IO_I32: val = cJSON_CreateNumber(*(int32_t*)ptr); break;
-            case OP_IO_I64: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: val = cJSON_CreateNumber(*(float*)ptr); break;
-            case OP_IO_F64: val = cJSON_CreateNumber(*(double*)ptr); break;
-            case OP_IO_BIT_U: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                // Simplified logic, assume little endian for temp
-                uint32_t len = 0; memcpy(&len, (uint8_t*)ptr-4, 4); 
-                // Proper:
-                uint8_t* p = (uint8_t*)ptr-4;
-                len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24; // Assume LE for now or fix with ctx
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: {
-                // Should ideally read count from IL.
-                // For now, ignore single RAW_BYTES in decode.
-                break;
-            }
+// Whether a field holds a floating point value, which expressions see as its bits
+static bool is_float_key(IOCtx* io, uint16_t key_id) {
+    cnd_il_walker w;
+    size_t at, size;
+    bool scaled = false;
+    const uint8_t* bc = io->program->bytecode;
+    cnd_il_walk(&w, bc, io->program->bytecode_len);
+    while (cnd_il_next(&w, &at, &size) == CND_ERR_OK && size > 0) {
+        uint8_t op = bc[at];
+        if (op == OP_SCALE_LIN || op == OP_TRANS_POLY || op == OP_TRANS_SPLINE) {
+            scaled = true;
+            continue;
         }
-        
-        if (val) {
-            // Add to parent
-            cJSON* target = NULL;
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                target = io->array_stack[io->array_depth - 1];
-                io->array_index_stack[io->array_depth - 1]++;
-                cJSON_AddItemToArray(target, val);
-            } else {
-                // We need to find the key_name for adding to object.
-                // This helper logic is tricky because `key_name` is not passed here.
-                // Caller must handle adding.
-                // Wait, I removed `key_name` argument?
-                // I need to return `val` to caller.
-                return CND_ERR_OK; // Caller adds `val`.
+        if ((op >= OP_IO_U8 && op <= OP_IO_BOOL) || op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL) {
+            if (read_u16(bc + at + 1, CND_LE) == key_id) return scaled || op == OP_IO_F32 || op == OP_IO_F64;
+            scaled = false;
+        } else if (op == OP_STORE_CTX && read_u16(bc + at + 1, CND_LE) == key_id) {
+            if (cnd_il_next(&w, &at, &size) == CND_ERR_OK && size > 0 && bc[at] == OP_MARK_OPTIONAL) {
+                if (cnd_il_next(&w, &at, &size) != CND_ERR_OK) return false;
             }
+            return size > 1 && bc[at] == OP_EMIT && (bc[at + 1] == OP_IO_F32 || bc[at + 1] == OP_IO_F64);
         }
-        // This helper is slightly broken because `val` needs to be added.
-        // Let's fix this by adding `val` inside the caller or passing needed context.
-        // But `json_io_callback` is monolithic.
-        // I will merge `handle_primitive` back into `json_io_callback` logic flow in `json_io_callback` for simplicity in this file.
-        // See below.
+    }
+    return false;
+}
+
+// The scalar type of the computed field whose value was just stored
+static uint8_t stored_type(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
+    size_t ip = ctx->ip;
+    if (ip < len && bc[ip] == OP_MARK_OPTIONAL) ip++;
+    return (ip + 1 < len && bc[ip] == OP_EMIT) ? bc[ip + 1] : OP_IO_U64;
+}
+
+// --- Values ---
+
+// cJSON renders numbers to 15 digits; those that need more are rendered here
+static cJSON* number_item(double d) {
+    char text[32];
+    snprintf(text, sizeof(text), "%1.15g", d);
+    if (d != d || isinf(d) || strtod(text, NULL) == d) return cJSON_CreateNumber(d);
+    snprintf(text, sizeof(text), "%1.17g", d);
+    return cJSON_CreateRaw(text);
+}
+
+static cJSON* unsigned_item(uint64_t u) {
+    char text[32];
+    if (u < 1000000000000000) return cJSON_CreateNumber((double)u);
+    snprintf(text, sizeof(text), "%" PRIu64, u);
+    return cJSON_CreateRaw(text);
+}
+
+static cJSON* signed_item(int64_t s) {
+    char text[32];
+    if (s > -1000000000000000 && s < 1000000000000000) return cJSON_CreateNumber((double)s);
+    snprintf(text, sizeof(text), "%" PRId64, s);
+    return cJSON_CreateRaw(text);
+}
+
+static bool json_number(const cJSON* item, double* out) {
+    if (cJSON_IsNumber(item)) *out = item->valuedouble;
+    else if (cJSON_IsRaw(item)) *out = strtod(item->valuestring, NULL);
+    else return false;
+    return true;
+}
+
+// The number as a signed / unsigned integer; false if it is not one of that range
+static bool json_signed(const cJSON* item, int64_t min, int64_t max, int64_t* out) {
+    double d = cJSON_IsTrue(item) ? 1.0 : 0.0;
+    if (!json_number(item, &d) && !cJSON_IsBool(item)) return false;
+    if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0) || d != floor(d)) return false;
+    *out = (int64_t)d;
+    return *out >= min && *out <= max;
+}
+
+static bool json_unsigned(const cJSON* item, uint64_t max, uint64_t* out) {
+    double d = cJSON_IsTrue(item) ? 1.0 : 0.0;
+    if (!json_number(item, &d) && !cJSON_IsBool(item)) return false;
+    if (!(d >= 0.0 && d < 18446744073709551616.0) || d != floor(d)) return false;
+    *out = (uint64_t)d;
+    return *out <= max;
+}
+
+// Any integer, as the word expressions and switches work with
+static bool json_word(const cJSON* item, uint64_t* out) {
+    int64_t s;
+    if (cJSON_IsRaw(item) && !strpbrk(item->valuestring, ".e")) {
+        *out = (item->valuestring[0] == '-') ? (uint64_t)strtoll(item->valuestring, NULL, 10)
+                                             : strtoull(item->valuestring, NULL, 10);
+        return true;
+    }
+    if (json_unsigned(item, UINT64_MAX, out)) return true;
+    if (!json_signed(item, INT64_MIN, -1, &s)) return false;
+    *out = (uint64_t)s;
+    return true;
+}
+
+static cnd_error_t encode_value(uint8_t type, void* ptr, const cJSON* item) {
+    int64_t s = 0;
+    uint64_t u = 0;
+    switch (type) {
+        case OP_IO_U8:  if (!json_unsigned(item, UINT8_MAX, &u)) return CND_ERR_CALLBACK; *(uint8_t*)ptr = (uint8_t)u; break;
+        case OP_IO_U16: if (!json_unsigned(item, UINT16_MAX, &u)) return CND_ERR_CALLBACK; *(uint16_t*)ptr = (uint16_t)u; break;
+        case OP_IO_U32: if (!json_unsigned(item, UINT32_MAX, &u)) return CND_ERR_CALLBACK; *(uint32_t*)ptr = (uint32_t)u; break;
+        case OP_IO_BIT_U:
+        case OP_IO_U64: if (!json_unsigned(item, UINT64_MAX, &u)) return CND_ERR_CALLBACK; *(uint64_t*)ptr = u; break;
+        case OP_IO_I8:  if (!json_signed(item, INT8_MIN, INT8_MAX, &s)) return CND_ERR_CALLBACK; *(int8_t*)ptr = (int8_t)s; break;
+        case OP_IO_I16: if (!json_signed(item, INT16_MIN, INT16_MAX, &s)) return CND_ERR_CALLBACK; *(int16_t*)ptr = (int16_t)s; break;
+        case OP_IO_I32: if (!json_signed(item, INT32_MIN, INT32_MAX, &s)) return CND_ERR_CALLBACK; *(int32_t*)ptr = (int32_t)s; break;
+        case OP_IO_BIT_I:
+        case OP_IO_I64: if (!json_signed(item, INT64_MIN, INT64_MAX, &s)) return CND_ERR_CALLBACK; *(int64_t*)ptr = s; break;
+        case OP_IO_F32: if (!cJSON_IsNumber(item)) return CND_ERR_CALLBACK; *(float*)ptr = (float)item->valuedouble; break;
+        case OP_IO_F64: if (!cJSON_IsNumber(item)) return CND_ERR_CALLBACK; *(double*)ptr = item->valuedouble; break;
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL: if (!json_unsigned(item, 1, &u)) return CND_ERR_CALLBACK; *(uint8_t*)ptr = (uint8_t)u; break;
+        case OP_STR_NULL:
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32:
+            if (!cJSON_IsString(item)) return CND_ERR_CALLBACK;
+            *(const char**)ptr = item->valuestring;
+            break;
+        default: return CND_ERR_CALLBACK;
     }
     return CND_ERR_OK;
 }
 
-// Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
-static const char* get_json_key(const char* key_name) {
-    const char* dot = strrchr(key_name, '.');
-    return dot ? (dot + 1) : key_name;
+// A string with a length prefix, which stands right before it on the wire
+static cJSON* decode_string(cnd_vm_ctx* ctx, uint8_t type, const uint8_t* ptr) {
+    size_t len = 0;
+    if (type == OP_STR_PRE_U8) len = ptr[-1];
+    else if (type == OP_STR_PRE_U16) len = read_u16(ptr - 2, ctx->endianness);
+    else len = read_u32(ptr - 4, ctx->endianness);
+
+    char* s = malloc(len + 1);
+    if (!s) return NULL;
+    memcpy(s, ptr, len);
+    s[len] = '\0';
+    cJSON* val = cJSON_CreateString(s);
+    free(s);
+    return val;
+}
+
+static cJSON* decode_value(cnd_vm_ctx* ctx, uint8_t type, void* ptr) {
+    switch (type) {
+        case OP_IO_U8:  return cJSON_CreateNumber(*(uint8_t*)ptr);
+        case OP_IO_U16: return cJSON_CreateNumber(*(uint16_t*)ptr);
+        case OP_IO_U32: return cJSON_CreateNumber(*(uint32_t*)ptr);
+        case OP_IO_BIT_U:
+        case OP_IO_U64: return unsigned_item(*(uint64_t*)ptr);
+        case OP_IO_I8:  return cJSON_CreateNumber(*(int8_t*)ptr);
+        case OP_IO_I16: return cJSON_CreateNumber(*(int16_t*)ptr);
+        case OP_IO_I32: return cJSON_CreateNumber(*(int32_t*)ptr);
+        case OP_IO_BIT_I:
+        case OP_IO_I64: return signed_item(*(int64_t*)ptr);
+        case OP_IO_F32: return number_item(*(float*)ptr);
+        case OP_IO_F64: return number_item(*(double*)ptr);
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL: return cJSON_CreateBool(*(uint8_t*)ptr);
+        case OP_STR_NULL: return cJSON_CreateString((const char*)ptr);
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32: return decode_string(ctx, type, (const uint8_t*)ptr);
+        default: return NULL;
+    }
+}
+
+// --- Arrays ---
+
+static int hex_digit(char c) {
+    if (c >= '0' && c <= '9') return c - '0';
+    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
+    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
+    return -1;
+}
+
+static bool append_hex_byte(JSONArray* arr, uint8_t byte) {
+    if (arr->hex_len + 3 > arr->hex_cap) {
+        size_t cap = arr->hex_cap ? arr->hex_cap * 2 : 64;
+        char* grown = realloc(arr->hex, cap);
+        if (!grown) return false;
+        arr->hex = grown;
+        arr->hex_cap = cap;
+    }
+    sprintf(arr->hex + arr->hex_len, "%02X", byte);
+    arr->hex_len += 2;
+    return true;
+}
+
+static bool is_array_start(uint8_t type) {
+    return (type >= OP_ARR_FIXED && type <= OP_ARR_PRE_U32) || type == OP_ARR_DYNAMIC;
+}
+
+static uint32_t get_count(uint8_t type, const void* ptr) {
+    if (type == OP_ARR_PRE_U8) return *(const uint8_t*)ptr;
+    if (type == OP_ARR_PRE_U16) return *(const uint16_t*)ptr;
+    return *(const uint32_t*)ptr;
+}
+
+static cnd_error_t array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, void* ptr) {
+    // The instruction pointer stands on the element: bytes can be written as a hex string
+    const cnd_program* program = ctx->program;
+    bool is_bytes = ctx->ip < program->bytecode_len && program->bytecode[ctx->ip] == OP_IO_U8;
+
+    if (ctx->mode == CND_MODE_DECODE) {
+        bool hex = io->hex_mode && is_bytes;
+        cJSON* item = hex ? cJSON_CreateString("") : cJSON_CreateArray();
+        cnd_error_t err = add_value(io, key_name, item);
+        if (err != CND_ERR_OK) return err;
+        if (get_count(type, ptr) == 0) return CND_ERR_OK; // No elements, no end either
+        JSONArray* arr = push_array(io, item);
+        if (!arr) return CND_ERR_CALLBACK;
+        arr->is_hex = hex;
+        return CND_ERR_OK;
+    }
+
+    cJSON* item = cJSON_GetObjectItemCaseSensitive(io->stack[io->depth].object, key_name);
+    bool hex = cJSON_IsString(item) && is_bytes;
+    size_t len = 0;
+    if (hex) {
+        len = strlen(item->valuestring);
+        if (len % 2 != 0) return CND_ERR_CALLBACK;
+        len /= 2;
+    } else if (item) {
+        if (!cJSON_IsArray(item)) return CND_ERR_CALLBACK;
+        len = (size_t)cJSON_GetArraySize(item);
+    }
+
+    // A missing array is empty, or all zeroes where the schema decides on the length
+    if (type == OP_ARR_PRE_U8) {
+        if (len > UINT8_MAX) return CND_ERR_CALLBACK;
+        *(uint8_t*)ptr = (uint8_t)len;
+    } else if (type == OP_ARR_PRE_U16) {
+        if (len > UINT16_MAX) return CND_ERR_CALLBACK;
+        *(uint16_t*)ptr = (uint16_t)len;
+    } else if (type == OP_ARR_PRE_U32) {
+        if (len > UINT32_MAX) return CND_ERR_CALLBACK;
+        *(uint32_t*)ptr = (uint32_t)len;
+    } else if (len > *(uint32_t*)ptr) {
+        return CND_ERR_CALLBACK;
+    }
+
+    if (get_count(type, ptr) == 0) return CND_ERR_OK;
+    JSONArray* arr = push_array(io, item);
+    if (!arr) return CND_ERR_CALLBACK;
+    if (hex) arr->hex_in = item->valuestring;
+    return CND_ERR_OK;
+}
+
+static cnd_error_t array_end(IOCtx* io, cnd_vm_ctx* ctx) {
+    if (io->array_depth == 0) return CND_ERR_CALLBACK;
+    JSONArray* arr = &io->arrays[--io->array_depth];
+    if (ctx->mode == CND_MODE_ENCODE) {
+        if (!arr->next) return CND_ERR_OK;
+        io->full = arr->until_end; // Otherwise elements nobody asked for
+        return CND_ERR_CALLBACK;
+    }
+    if (arr->is_hex && arr->hex) {
+        char* set = cJSON_SetValuestring(arr->item, arr->hex);
+        free(arr->hex);
+        arr->hex = NULL;
+        if (!set) return CND_ERR_CALLBACK;
+    }
+    return CND_ERR_OK;
+}
+
+// Until-end arrays have no start event: their loop is running when an element shows up
+static cnd_error_t eof_array_start(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name) {
+    cJSON* item;
+    if (ctx->mode == CND_MODE_DECODE) {
+        item = cJSON_CreateArray();
+        cnd_error_t err = add_value(io, key_name, item);
+        if (err != CND_ERR_OK) return err;
+    } else {
+        item = cJSON_GetObjectItemCaseSensitive(io->stack[io->depth].object, key_name);
+        if (item && !cJSON_IsArray(item)) return CND_ERR_CALLBACK;
+    }
+    JSONArray* arr = push_array(io, item);
+    if (!arr) return CND_ERR_CALLBACK;
+    arr->until_end = true;
+    return CND_ERR_OK;
 }
 
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
     IOCtx* io = (IOCtx*)ctx->user_ptr;
-    
+
     // Get Key Name (full path)
     const char* key_name_full = "";
     if (key_id < io->il->str_count) key_name_full = io->il->string_table[key_id];
-    
+
     // For JSON lookups, use only the last component (after the last dot)
     const char* key_name = get_json_key(key_name_full);
 
-    // Get Current Context
-    cJSON* current = io->stack[io->depth];
-    
-    // Handle Structs
-    if (type == OP_ENTER_STRUCT) {
-        cJSON* item = NULL;
-        // If in array, get/create next element
-        if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-            if (ctx->mode == CND_MODE_ENCODE) {
-                item = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]++);
-            } else {
-                item = cJSON_CreateObject();
-                cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], item);
-                io->array_index_stack[io->array_depth - 1]++;
-            }
-        } else {
-            // In object
-            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItem(current, key_name);
-            else {
-                item = cJSON_CreateObject();
-                cJSON_AddItemToObject(current, key_name, item);
-            }
-        }
-        
-        if (!item && ctx->mode == CND_MODE_ENCODE) return CND_ERR_CALLBACK;
-        io->stack[++io->depth] = item;
-        return CND_ERR_OK;
-    }
-    
     if (type == OP_EXIT_STRUCT) {
         if (io->depth > 0) io->depth--;
         return CND_ERR_OK;
     }
+    if (type == OP_ARR_END) return array_end(io, ctx);
 
-    // Handle Arrays
-    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_RAW_BYTES || type == OP_ARR_DYNAMIC) {
-        return handle_array_start(io, ctx, type, key_name, current, ptr);
-    }
-    
-    if (type == OP_ARR_END) {
-        // Finalize hex string if needed
-        if (io->in_hex_byte_array && ctx->mode == CND_MODE_DECODE) {
-            cJSON* str = io->array_stack[io->array_depth - 1];
-            if (io->hex_str_buffer) {
-                cJSON_SetValuestring(str, io->hex_str_buffer);
-                free(io->hex_str_buffer); io->hex_str_buffer = NULL;
-            }
-            io->hex_str_buffer_len = 0;
-            io->hex_str_buffer_capacity = 0;
-            io->in_hex_byte_array = false;
-        }
-        if (io->array_depth > 0) io->array_depth--;
-        return CND_ERR_OK;
-    }
+    // Taken element by element instead
+    if (type == OP_RAW_BYTES) return CND_ERR_CALLBACK;
 
     // Handle Control Flow
     if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) {
-        cJSON* item = cJSON_GetObjectItem(current, key_name);
-        if (!item) {
-            printf("JSON_BINDING: Query failed for key '%s'\n", key_name);
+        cJSON* item = find_value(io, key_name_full);
+        bool ok;
+        if (type == OP_LOAD_CTX && is_float_key(io, key_id)) {
+            double d = 0.0;
+            ok = json_number(item, &d);
+            memcpy(ptr, &d, sizeof(d));
+        } else {
+            ok = json_word(item, (uint64_t*)ptr);
+        }
+        if (!ok) {
+            printf("JSON_BINDING: Query failed for key '%s'\n", key_name_full);
             return CND_ERR_CALLBACK;
         }
-        if (cJSON_IsBool(item)) *(uint64_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
-        else *(uint64_t*)ptr = (uint64_t)item->valuedouble;
         return CND_ERR_OK;
     }
 
-    if (type == OP_STORE_CTX) {
-        if (ctx->mode == CND_MODE_DECODE) {
-            uint64_t val = *(uint64_t*)ptr;
-            cJSON_AddNumberToObject(current, key_name, (double)val);
-        }
-        return CND_ERR_OK;
+    if (io->array_depth < ctx->loop_depth) {
+        cnd_error_t err = eof_array_start(io, ctx, key_name);
+        if (err != CND_ERR_OK) return err;
     }
 
-    // Handle Primitives
-    cJSON* item_to_process = NULL;
-    if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
+    if (is_array_start(type)) return array_start(io, ctx, type, key_name, ptr);
+
+    // A computed value: what later expressions see, and part of the decoded record
+    if (type == OP_STORE_CTX) {
+        uint64_t word = *(uint64_t*)ptr;
+        double d;
+        cJSON* val;
+        memcpy(&d, &word, sizeof(d));
+        switch (stored_type(ctx)) {
+            case OP_IO_F32: val = number_item((float)d); break;
+            case OP_IO_F64: val = number_item(d); break;
+            case OP_IO_BOOL: val = cJSON_CreateBool(word != 0); break;
+            case OP_IO_I8:  val = signed_item((int8_t)word); break;
+            case OP_IO_I16: val = signed_item((int16_t)word); break;
+            case OP_IO_I32: val = signed_item((int32_t)word); break;
+            case OP_IO_I64: val = signed_item((int64_t)word); break;
+            case OP_IO_U8:  val = unsigned_item((uint8_t)word); break;
+            case OP_IO_U16: val = unsigned_item((uint16_t)word); break;
+            case OP_IO_U32: val = unsigned_item((uint32_t)word); break;
+            default: val = unsigned_item(word); break;
+        }
         if (ctx->mode == CND_MODE_ENCODE) {
-            item_to_process = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]);
-            io->array_index_stack[io->array_depth - 1]++;
+            cJSON_DeleteItemFromObjectCaseSensitive(io->stack[io->depth].object, key_name);
         }
-    } else {
-        if (ctx->mode == CND_MODE_ENCODE) item_to_process = cJSON_GetObjectItem(current, key_name);
+        return add_value(io, key_name, val);
     }
 
-    // Special handling for Primitive Add (Decode) inside json_io_callback to keep it simple with `val` addition
+    JSONArray* arr = current_array(io);
+
     if (ctx->mode == CND_MODE_DECODE) {
-        // Check Hex
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
+        if (type == OP_ENTER_STRUCT) {
+            cJSON* item = cJSON_CreateObject();
+            cnd_error_t err = add_value(io, key_name, item);
+            return err == CND_ERR_OK ? push_struct(io, item, key_name_full) : err;
         }
-        
-        cJSON* val = NULL;
-        #define TO_JSON(expr) val = cJSON_CreateNumber(expr)
-        switch (type) {
-            case OP_IO_U8: TO_JSON(*(uint8_t*)ptr); break;
-            case OP_IO_U16: TO_JSON(*(uint16_t*)ptr); break;
-            case OP_IO_U32: TO_JSON(*(uint32_t*)ptr); break;
-            case OP_IO_U64: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8: TO_JSON(*(int8_t*)ptr); break;
-            case OP_IO_I16: TO_JSON(*(int16_t*)ptr); break;
-            case OP_IO_I32: TO_JSON(*(int32_t*)ptr); break;
-            case OP_IO_I64: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: TO_JSON(*(float*)ptr); break;
-            case OP_IO_F64: TO_JSON(*(double*)ptr); break;
-            case OP_IO_BIT_U: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                uint8_t* p = (uint8_t*)ptr-4;
-                uint32_t len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24;
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: break;
+        if (arr && arr->is_hex && type == OP_IO_U8) {
+            return append_hex_byte(arr, *(uint8_t*)ptr) ? CND_ERR_OK : CND_ERR_CALLBACK;
         }
-        #undef TO_JSON
-        
-        if (val) {
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], val);
-                io->array_index_stack[io->array_depth - 1]++;
-            } else {
-                cJSON_AddItemToObject(current, key_name, val);
-            }
-        }
-    } else {
-        // ENCODE Primitive
-        handle_primitive(io, ctx, type, ptr, item_to_process);
+        return add_value(io, key_name, decode_value(ctx, type, ptr));
     }
 
-    return CND_ERR_OK;
+    // Encode
+    cJSON* item = NULL;
+    if (!arr) {
+        item = cJSON_GetObjectItemCaseSensitive(io->stack[io->depth].object, key_name);
+    } else if (arr->hex_in) {
+        if (arr->hex_in[0] == '\0') return CND_ERR_OK;
+        int hi = hex_digit(arr->hex_in[0]), lo = hex_digit(arr->hex_in[1]);
+        if (hi < 0 || lo < 0) return CND_ERR_CALLBACK;
+        arr->hex_in += 2;
+        *(uint8_t*)ptr = (uint8_t)(hi << 4 | lo);
+        return CND_ERR_OK;
+    } else if (arr->next) {
+        item = arr->next;
+        arr->next = item->next;
+    } else if (arr->until_end) {
+        // The record is complete here; the output has to end here as well
+        io->ended = true;
+        io->end = ctx->cursor;
+        return CND_ERR_CALLBACK;
+    }
+
+    if (type == OP_ENTER_STRUCT) {
+        if (!cJSON_IsObject(item)) return CND_ERR_CALLBACK;
+        return push_struct(io, item, key_name_full);
+    }
+    // A missing value is zero or empty, as the VM has initialized it
+    return item ? encode_value(type, ptr, item) : CND_ERR_OK;
 }
-- 
2.43.0


From e917c010c936496e99d2092be3823ebd279c718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 25/47] fix: inspect decodes every instruction, table and
 operand in order and stops at malformed bytecode

---
 src/cli/cmd_inspect.c | 294 ++++++++++++++++++++++++------------------
 1 file changed, 166 insertions(+), 128 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 94a123a..26bc8aa 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -4,35 +4,83 @@
 #include <stdint.h>
 #include <inttypes.h>
 #include "concordia.h"
+#include "../vm/vm_internal.h"
 
-// Helper to read bytes from memory safely
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
+// Defined in src/compiler/cnd_utils.c
+extern char* cnd_read_file(const char* path, size_t* out_len);
+
+// Helpers to take operands off the bytecode, whose instructions are known to be complete
+static uint8_t take_u8(const uint8_t** ptr) {
     return *(*ptr)++;
 }
 
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
-    uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
+static uint16_t take_u16(const uint8_t** ptr) {
+    uint16_t v = read_u16(*ptr, CND_LE);
     *ptr += 2;
     return v;
 }
 
-static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 4 > end) return 0;
-    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((*ptr)[3] << 24);
+static uint32_t take_u32(const uint8_t** ptr) {
+    uint32_t v = read_u32(*ptr, CND_LE);
     *ptr += 4;
     return v;
 }
 
-static uint64_t read_u64(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 8 > end) return 0;
-    uint64_t v = (uint64_t)(*ptr)[0] | ((uint64_t)(*ptr)[1] << 8) | ((uint64_t)(*ptr)[2] << 16) | ((uint64_t)(*ptr)[3] << 24) |
-                 ((uint64_t)(*ptr)[4] << 32) | ((uint64_t)(*ptr)[5] << 40) | ((uint64_t)(*ptr)[6] << 48) | ((uint64_t)(*ptr)[7] << 56);
+static uint64_t take_u64(const uint8_t** ptr) {
+    uint64_t v = read_u64(*ptr, CND_LE);
     *ptr += 8;
     return v;
 }
 
+static double take_f64(const uint8_t** ptr) {
+    uint64_t v = take_u64(ptr);
+    double d;
+    memcpy(&d, &v, 8);
+    return d;
+}
+
+// Takes one value of a scalar type and prints it
+static void print_value(uint8_t type, const uint8_t** ptr) {
+    switch (type) {
+        case OP_IO_U8:  printf("%u", take_u8(ptr)); break;
+        case OP_IO_U16: printf("%u", take_u16(ptr)); break;
+        case OP_IO_U32: printf("%u", take_u32(ptr)); break;
+        case OP_IO_U64: printf("%" PRIu64, take_u64(ptr)); break;
+        case OP_IO_I8:  printf("%d", (int8_t)take_u8(ptr)); break;
+        case OP_IO_I16: printf("%d", (int16_t)take_u16(ptr)); break;
+        case OP_IO_I32: printf("%d", (int32_t)take_u32(ptr)); break;
+        case OP_IO_I64: printf("%" PRId64, (int64_t)take_u64(ptr)); break;
+        case OP_IO_F32: {
+            uint32_t v = take_u32(ptr);
+            float f;
+            memcpy(&f, &v, 4);
+            printf("%.9g", f);
+            break;
+        }
+        case OP_IO_F64: printf("%.17g", take_f64(ptr)); break;
+    }
+}
+
+// Prints the branches of a switch. Offsets count from the end of the switch instruction.
+static void print_switch_table(uint8_t op, const uint8_t* ptr) {
+    if (op == OP_SWITCH) {
+        uint16_t count = take_u16(&ptr);
+        printf(" Default=%d Cases=[", (int32_t)take_u32(&ptr));
+        for (uint32_t i = 0; i < count; i++) {
+            uint64_t v = take_u64(&ptr);
+            printf("%s%" PRIu64 ": %d", i > 0 ? ", " : "", v, (int32_t)take_u32(&ptr));
+        }
+    } else {
+        uint64_t min = take_u64(&ptr);
+        uint64_t max = take_u64(&ptr);
+        printf(" Default=%d Min=%" PRIu64 " Max=%" PRIu64 " Cases=[", (int32_t)take_u32(&ptr), min, max);
+        for (uint64_t i = 0; i <= max - min; i++) {
+            printf("%s%" PRIu64 ": %d", i > 0 ? ", " : "", min + i, (int32_t)take_u32(&ptr));
+        }
+    }
+    printf("]");
+}
+
 static const char* get_opcode_name(uint8_t op) {
     switch (op) {
         case OP_NOOP: return "NOOP";
@@ -41,6 +89,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENTER_STRUCT: return "ENTER_STRUCT";
         case OP_EXIT_STRUCT: return "EXIT_STRUCT";
         case OP_META_VERSION: return "META_VERSION";
+        case OP_CTX_QUERY: return "CTX_QUERY";
         case OP_META_NAME: return "META_NAME";
         case OP_IO_U8: return "IO_U8";
         case OP_IO_U16: return "IO_U16";
@@ -88,6 +137,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENUM_CHECK: return "ENUM_CHECK";
         case OP_JUMP_IF_NOT: return "JUMP_IF_NOT";
         case OP_SWITCH: return "SWITCH";
+        case OP_SWITCH_TABLE: return "SWITCH_TABLE";
         case OP_JUMP: return "JUMP";
         case OP_LOAD_CTX: return "LOAD_CTX";
         case OP_STORE_CTX: return "STORE_CTX";
@@ -148,20 +198,14 @@ int cmd_inspect(int argc, char** argv) {
     }
 
     const char* path = argv[2];
-    FILE* f = fopen(path, "rb");
-    if (!f) {
+    size_t size = 0;
+    uint8_t* data = (uint8_t*)cnd_read_file(path, &size);
+    if (!data) {
         printf("Error opening file: %s\n", path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* data = (uint8_t*)malloc(size);
-    fread(data, 1, size, f);
-    fclose(f);
-
-    printf("Inspecting: %s (%ld bytes)\n", path, size);
+    printf("Inspecting: %s (%zu bytes)\n", path, size);
 
     // Parse Header
     if (size < 16 || memcmp(data, "CNDIL", 5) != 0) {
@@ -170,50 +214,62 @@ int cmd_inspect(int argc, char** argv) {
         return 1;
     }
 
+    cnd_program program;
+    if (cnd_program_load_il(&program, data, size) != CND_ERR_OK) {
+        printf("Error: Invalid IL file format\n");
+        free(data);
+        return 1;
+    }
+
     uint8_t version = data[5];
-    uint16_t str_count = data[6] | (data[7] << 8);
-    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | (data[11] << 24);
-    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | (data[15] << 24);
+    uint16_t str_count = read_u16(data + 6, CND_LE);
+    uint32_t str_offset = read_u32(data + 8, CND_LE);
+    uint32_t bc_offset = read_u32(data + 12, CND_LE);
 
     printf("\n--- Header ---\n");
     printf("Version: %d\n", version);
     printf("String Count: %d\n", str_count);
-    printf("String Table Offset: %d\n", str_offset);
-    printf("Bytecode Offset: %d\n", bc_offset);
+    printf("String Table Offset: %u\n", str_offset);
+    printf("Bytecode Offset: %u\n", bc_offset);
 
     // Print String Table
     printf("\n--- String Table ---\n");
-    if ((long)str_offset < size) {
-        const char* ptr = (const char*)(data + str_offset);
-        for (int i = 0; i < str_count; i++) {
-            printf("[%d] %s\n", i, ptr);
-            while (*ptr) ptr++;
-            ptr++; // Skip null
-            if ((uint8_t*)ptr > data + size) break;
-        }
+    const char* str = program.string_table;
+    for (int i = 0; i < str_count; i++) {
+        printf("[%d] %s\n", i, str);
+        str += strlen(str) + 1;
     }
 
     // Disassemble Bytecode
     printf("\n--- Bytecode ---\n");
-    if ((long)bc_offset < size) {
-        const uint8_t* ptr = data + bc_offset;
-        const uint8_t* end = data + size;
-        const uint8_t* start = ptr;
+    {
+        const uint8_t* start = program.bytecode;
+        cnd_il_walker walker;
+        size_t offset, length;
+
+        cnd_il_walk(&walker, start, program.bytecode_len);
+        for (;;) {
+            cnd_error_t err = cnd_il_next(&walker, &offset, &length);
+            if (err != CND_ERR_OK) {
+                printf("Error: Malformed instruction at %04X: %s\n", (unsigned)offset, cnd_error_string(err));
+                free(data);
+                return 1;
+            }
+            if (length == 0) break;
 
-        while (ptr < end) {
-            uint32_t offset = (uint32_t)(ptr - start);
-            uint8_t op = read_u8(&ptr, end);
-            printf("%04X: %-15s", offset, get_opcode_name(op));
+            const uint8_t* ptr = start + offset;
+            uint8_t op = take_u8(&ptr);
+            printf("%04X: %-15s", (unsigned)offset, get_opcode_name(op));
 
             switch (op) {
                 case OP_META_VERSION: {
-                    uint8_t v = read_u8(&ptr, end);
+                    uint8_t v = take_u8(&ptr);
                     printf(" Ver=%d", v);
                     break;
                 }
                 
                 case OP_META_NAME: {
-                    uint16_t k = read_u16(&ptr, end);
+                    uint16_t k = take_u16(&ptr);
                     printf(" KeyID=%d (Name)", k);
                     break;
                 }
@@ -230,7 +286,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_IO_F64:
                 case OP_IO_BOOL:
                 case OP_ENTER_STRUCT:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
+                    printf(" KeyID=%d", take_u16(&ptr));
                     break;
 
                 case OP_ENTER_BIT_MODE:
@@ -238,8 +294,8 @@ int cmd_inspect(int argc, char** argv) {
                     break;
 
                 case OP_STR_NULL: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint16_t m = read_u16(&ptr, end);
+                    uint16_t k = take_u16(&ptr);
+                    uint16_t m = take_u16(&ptr);
                     printf(" KeyID=%d MaxLen=%d", k, m);
                     break;
                 }
@@ -250,7 +306,8 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_PRE_U8:
                 case OP_ARR_PRE_U16:
                 case OP_ARR_PRE_U32:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
+                case OP_ARR_EOF:
+                    printf(" KeyID=%d", take_u16(&ptr));
                     break;
 
                 case OP_ARR_END:
@@ -258,81 +315,66 @@ int cmd_inspect(int argc, char** argv) {
 
                 case OP_IO_BIT_U:
                 case OP_IO_BIT_I: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint8_t b = read_u8(&ptr, end);
+                    uint16_t k = take_u16(&ptr);
+                    uint8_t b = take_u8(&ptr);
                     printf(" KeyID=%d Bits=%d", k, b);
                     break;
                 }
                 
                 case OP_IO_BIT_BOOL:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
+                    printf(" KeyID=%d", take_u16(&ptr));
                     break;
 
                 case OP_ARR_FIXED: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    uint16_t k = take_u16(&ptr);
+                    uint32_t c = take_u32(&ptr);
+                    printf(" KeyID=%d Count=%u", k, c);
                     break;
                 }
 
                 case OP_ARR_DYNAMIC: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint16_t ref = read_u16(&ptr, end);
+                    uint16_t k = take_u16(&ptr);
+                    uint16_t ref = take_u16(&ptr);
                     printf(" KeyID=%d RefKeyID=%d", k, ref);
                     break;
                 }
 
                 case OP_RAW_BYTES: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    uint16_t k = take_u16(&ptr);
+                    uint32_t c = take_u32(&ptr);
+                    printf(" KeyID=%d Count=%u", k, c);
                     break;
                 }
 
                 case OP_CONST_WRITE: {
-                    uint8_t type = read_u8(&ptr, end);
+                    uint8_t type = take_u8(&ptr);
                     printf(" Type=%s Val=", get_opcode_name(type));
-                    if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
+                    print_value(type, &ptr);
                     break;
                 }
 
                 case OP_CONST_CHECK: {
-                    uint16_t key = read_u16(&ptr, end);
-                    uint8_t type = read_u8(&ptr, end);
+                    uint16_t key = take_u16(&ptr);
+                    uint8_t type = take_u8(&ptr);
                     printf(" KeyID=%d Type=%s Val=", key, get_opcode_name(type));
-                    if (type == OP_IO_U8 || type == OP_IO_I8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16 || type == OP_IO_I16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32 || type == OP_IO_I32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64 || type == OP_IO_I64) printf("%" PRIu64, read_u64(&ptr, end));
+                    print_value(type, &ptr);
                     break;
                 }
 
                 case OP_RANGE_CHECK: {
-                    uint8_t type = read_u8(&ptr, end);
+                    uint8_t type = take_u8(&ptr);
                     printf(" Type=%s Range=[", get_opcode_name(type));
-                    if (type == OP_IO_U8) { printf("%u, %u]", read_u8(&ptr, end), read_u8(&ptr, end)); }
-                    else if (type == OP_IO_I8) { printf("%d, %d]", (int8_t)read_u8(&ptr, end), (int8_t)read_u8(&ptr, end)); }
-                    else if (type == OP_IO_U16) { printf("%u, %u]", read_u16(&ptr, end), read_u16(&ptr, end)); }
-                    else if (type == OP_IO_I16) { printf("%d, %d]", (int16_t)read_u16(&ptr, end), (int16_t)read_u16(&ptr, end)); }
-                    else if (type == OP_IO_U32) { printf("%u, %u]", read_u32(&ptr, end), read_u32(&ptr, end)); }
-                    else if (type == OP_IO_I32) { printf("%d, %d]", (int32_t)read_u32(&ptr, end), (int32_t)read_u32(&ptr, end)); }
-                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", %" PRIu64 "]", read_u64(&ptr, end), read_u64(&ptr, end)); }
-                    else if (type == OP_IO_I64) { printf("%" PRId64 ", %" PRId64 "]", (int64_t)read_u64(&ptr, end), (int64_t)read_u64(&ptr, end)); }
-                    else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
-                    else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
+                    print_value(type, &ptr);
+                    printf(", ");
+                    print_value(type, &ptr);
+                    printf("]");
                     break;
                 }
 
                 case OP_SCALE_LIN: {
-                    uint64_t fac = read_u64(&ptr, end);
-                    uint64_t off = read_u64(&ptr, end);
-                    double fac_val, o;
-                    memcpy(&fac_val, &fac, 8);
-                    memcpy(&o, &off, 8);
-                    printf(" Factor=%f Offset=%f", fac_val, o);
+                    double fac_val = take_f64(&ptr);
+                    double off_val = take_f64(&ptr);
+                    printf(" Factor=%.17g Offset=%.17g", fac_val, off_val);
                     break;
                 }
 
@@ -340,112 +382,108 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_TRANS_SUB:
                 case OP_TRANS_MUL:
                 case OP_TRANS_DIV:
-                    printf(" Val=%" PRId64, (int64_t)read_u64(&ptr, end));
+                    printf(" Val=%" PRId64, (int64_t)take_u64(&ptr));
                     break;
 
                 case OP_TRANS_POLY: {
-                    uint8_t count = read_u8(&ptr, end);
+                    uint8_t count = take_u8(&ptr);
                     printf(" Count=%d Coeffs=[", count);
                     for (int i = 0; i < count; i++) {
-                        uint64_t tmp = read_u64(&ptr, end);
-                        double val;
-                        memcpy(&val, &tmp, 8);
-                        printf("%f%s", val, i == count - 1 ? "" : ", ");
+                        double val = take_f64(&ptr);
+                        printf("%.17g%s", val, i == count - 1 ? "" : ", ");
                     }
                     printf("]");
                     break;
                 }
 
                 case OP_TRANS_SPLINE: {
-                    uint8_t count = read_u8(&ptr, end);
+                    uint8_t count = take_u8(&ptr);
                     printf(" Count=%d Points=[", count);
                     for (int i = 0; i < count; i++) {
-                        uint64_t tmp_x = read_u64(&ptr, end);
-                        uint64_t tmp_y = read_u64(&ptr, end);
-                        double x, y;
-                        memcpy(&x, &tmp_x, 8);
-                        memcpy(&y, &tmp_y, 8);
-                        printf("(%f, %f)%s", x, y, i == count - 1 ? "" : ", ");
+                        double x = take_f64(&ptr);
+                        double y = take_f64(&ptr);
+                        printf("(%.17g, %.17g)%s", x, y, i == count - 1 ? "" : ", ");
                     }
                     printf("]");
                     break;
                 }
 
-                case OP_CRC_16:
-                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", 
-                        read_u16(&ptr, end), read_u16(&ptr, end), read_u16(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_16: {
+                    uint16_t poly = take_u16(&ptr);
+                    uint16_t init = take_u16(&ptr);
+                    uint16_t xor_out = take_u16(&ptr);
+                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", poly, init, xor_out, take_u8(&ptr));
                     break;
+                }
 
-                case OP_CRC_32:
-                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", 
-                        read_u32(&ptr, end), read_u32(&ptr, end), read_u32(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_32: {
+                    uint32_t poly = take_u32(&ptr);
+                    uint32_t init = take_u32(&ptr);
+                    uint32_t xor_out = take_u32(&ptr);
+                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", poly, init, xor_out, take_u8(&ptr));
                     break;
+                }
 
                 case OP_ENUM_CHECK: {
-                    uint8_t type = read_u8(&ptr, end);
-                    uint16_t count = read_u16(&ptr, end);
+                    uint8_t type = take_u8(&ptr);
+                    uint16_t count = take_u16(&ptr);
                     printf(" Type=%s Count=%d Values=[", get_opcode_name(type), count);
                     for(int i=0; i<count; i++) {
                         if (i > 0) printf(", ");
-                        if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                        else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                        else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                        else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
-                        else if (type == OP_IO_I8) printf("%d", (int8_t)read_u8(&ptr, end));
-                        else if (type == OP_IO_I16) printf("%d", (int16_t)read_u16(&ptr, end));
-                        else if (type == OP_IO_I32) printf("%d", (int32_t)read_u32(&ptr, end));
-                        else if (type == OP_IO_I64) printf("%" PRId64, (int64_t)read_u64(&ptr, end));
+                        print_value(type, &ptr);
                     }
                     printf("]");
                     break;
                 }
 
-                case OP_SWITCH: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t t = read_u32(&ptr, end);
+                case OP_SWITCH:
+                case OP_SWITCH_TABLE: {
+                    uint16_t k = take_u16(&ptr);
+                    uint32_t t = take_u32(&ptr);
                     printf(" KeyID=%d TableOff=%u", k, t);
+                    print_switch_table(op, ptr + t);
                     break;
                 }
 
                 case OP_JUMP: {
-                    int32_t off = (int32_t)read_u32(&ptr, end);
+                    int32_t off = (int32_t)take_u32(&ptr);
                     printf(" Offset=%d", off);
                     break;
                 }
 
                 case OP_JUMP_IF_NOT: {
-                    int32_t off = (int32_t)read_u32(&ptr, end);
+                    int32_t off = (int32_t)take_u32(&ptr);
                     printf(" Offset=%d", off);
                     break;
                 }
 
                 case OP_LOAD_CTX: {
-                    uint16_t k = read_u16(&ptr, end);
+                    uint16_t k = take_u16(&ptr);
                     printf(" KeyID=%d", k);
                     break;
                 }
 
                 case OP_STORE_CTX: {
-                    uint16_t k = read_u16(&ptr, end);
+                    uint16_t k = take_u16(&ptr);
                     printf(" KeyID=%d", k);
                     break;
                 }
 
                 case OP_PUSH_IMM: {
-                    uint64_t v = read_u64(&ptr, end);
+                    uint64_t v = take_u64(&ptr);
                     printf(" Val=%" PRIu64, v);
                     break;
                 }
 
                 case OP_EMIT: {
-                    uint8_t type = read_u8(&ptr, end);
+                    uint8_t type = take_u8(&ptr);
                     printf(" Type=%s", get_opcode_name(type));
                     break;
                 }
 
                 case OP_ALIGN_PAD:
                 case OP_ALIGN_FILL:
-                    printf(" Align=%d", read_u8(&ptr, end));
+                    printf(" Align=%d", take_u8(&ptr));
                     break;
             }
             printf("\n");
-- 
2.43.0


From f9d387d8902306f5d77d6ad4808bb0b21004013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 26/47] fix: formatter keeps block comments whole, is stable on
 its own output and reports failed writes

---
 src/compiler/cnd_fmt.c | 70 +++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..f2b1632 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -23,6 +23,7 @@ typedef enum {
     FMT_COMMA,     // ,
     FMT_AT,        // @
     FMT_COMMENT,   // // ...
+    FMT_BLOCK_COMMENT,
     FMT_NEWLINE,   // \n
     FMT_WHITESPACE // spaces/tabs
 } FmtTokenType;
@@ -80,6 +81,22 @@ static FmtToken fmt_next(FmtLexer* l) {
             l->current++;
         }
         t.length = (int)(l->current - t.start);
+        if (t.start[t.length - 1] == '\r') t.length--;
+        return t;
+    }
+
+    if (c == '/' && *l->current == '*') {
+        t.type = FMT_BLOCK_COMMENT;
+        const char* close = strstr(l->current + 1, "*/");
+        if (close) {
+            l->current = close + 2;
+            t.length = (int)(l->current - t.start);
+        } else {
+            // Never closed: lasts until the end of the file
+            l->current += strlen(l->current);
+            t.length = (int)(l->current - t.start);
+            while (isspace((unsigned char)t.start[t.length - 1])) t.length--;
+        }
         return t;
     }
 
@@ -128,6 +145,8 @@ static FmtToken fmt_next(FmtLexer* l) {
 // --- Formatter Logic ---
 
 static void sb_indent(StringBuilder* sb, int level) {
+    // Nothing the compiler accepts is nested any deeper
+    if (level > CND_MAX_NESTING) level = CND_MAX_NESTING;
     for (int i = 0; i < level; i++) sb_append(sb, "    ");
 }
 
@@ -139,7 +158,8 @@ char* cnd_format_source(const char* source) {
     sb_init(&out);
 
     int indent = 0;
-    int newline_pending = 0;
+    int newline_needed = 0;  // The layout asks for a line break
+    int source_newlines = 0; // Line breaks in the source, of which one blank line is kept
     int space_pending = 0;
     int on_new_line = 1;
 
@@ -159,7 +179,7 @@ char* cnd_format_source(const char* source) {
         }
 
         if (t.type == FMT_NEWLINE) {
-            if (newline_pending < 2) newline_pending++;
+            if (source_newlines < 2) source_newlines++;
             continue;
         }
 
@@ -167,17 +187,19 @@ char* cnd_format_source(const char* source) {
         if (t.type == FMT_RBRACE) {
             indent--;
             if (indent < 0) indent = 0;
-            newline_pending = 1;
+            newline_needed = 1;
+            source_newlines = 0;
         }
 
         // Apply newlines
-        if (newline_pending > 0) {
+        if (newline_needed || source_newlines > 0) {
             if (!on_new_line) {
                 sb_append(&out, "\n");
-                if (newline_pending > 1) sb_append(&out, "\n");
+                if (source_newlines > 1) sb_append(&out, "\n");
             }
             on_new_line = 1;
-            newline_pending = 0;
+            newline_needed = 0;
+            source_newlines = 0;
             space_pending = 0;
         }
 
@@ -185,22 +207,18 @@ char* cnd_format_source(const char* source) {
         if (on_new_line) {
             sb_indent(&out, indent);
             on_new_line = 0;
-        } else if (space_pending) {
-            sb_append(&out, " ");
-            space_pending = 0;
-        }
-
-        if (t.type == FMT_LBRACE) {
-            sb_append(&out, " "); // Space before {
+        } else if (space_pending || t.type == FMT_LBRACE) {
+            sb_append(&out, " "); // Always one before {
         }
+        space_pending = 0;
 
         sb_append_n(&out, t.start, t.length);
 
         if (t.type == FMT_LBRACE) {
             indent++;
-            newline_pending = 1;
+            newline_needed = 1;
         } else if (t.type == FMT_RBRACE || t.type == FMT_SEMICOLON || t.type == FMT_COMMENT) {
-            newline_pending = 1;
+            newline_needed = 1;
         } else if (t.type == FMT_COMMA) {
             space_pending = 1;
         }
@@ -215,21 +233,12 @@ char* cnd_format_source(const char* source) {
 }
 
 int cnd_format_file(const char* in_path, const char* out_path) {
-    FILE* f = fopen(in_path, "rb");
-    if (!f) {
+    char* source = cnd_read_file(in_path, NULL);
+    if (!source) {
         fprintf(stderr, "Failed to open input file: %s\n", in_path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
-    fclose(f);
-
     char* formatted = cnd_format_source(source);
     free(source);
 
@@ -245,9 +254,12 @@ int cnd_format_file(const char* in_path, const char* out_path) {
         }
     }
 
-    fputs(formatted, out);
-    
-    if (out_path && out != stdout) fclose(out);
+    int failed = fputs(formatted, out) < 0;
+    failed |= (out_path ? fclose(out) : fflush(out)) != 0;
     free(formatted);
+    if (failed) {
+        fprintf(stderr, "Failed to write %s\n", out_path ? out_path : "output");
+        return 1;
+    }
     return 0;
 }
-- 
2.43.0


From ef8d49d070715f9248aa616edbe8073f38cb537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 27/47] fix: language server answers every request, uses open
 documents and the compiler's verdict, and survives malformed messages

---
 src/cli/cmd_lsp.c | 923 ++++++++++++++++++++--------------------------
 1 file changed, 406 insertions(+), 517 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index a9d1454..8be4f05 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -5,6 +5,7 @@
 #include <inttypes.h>
 #include <cJSON.h>
 #include "../compiler/cnd_internal.h"
+#include "../vm/vm_internal.h"
 #include "cli_helpers.h"
 #include "compiler.h" // For cnd_format_source
 
@@ -67,43 +68,93 @@ static void send_json(cJSON* json) {
     free(str);
 }
 
-static cJSON* read_json(void) {
+// Reads one message. False at the end of the input; *out is NULL if it is not JSON.
+static bool read_json(cJSON** out) {
     // Read header: "Content-Length: <N>\r\n\r\n"
-    size_t content_len = 0;
+    static const char name[] = "content-length:";
+    unsigned long long content_len = 0;
+    bool line_start = true;
     while (1) {
         char line[1024];
         // fgets reads until newline. In binary mode, \r\n is preserved.
-        if (!fgets(line, sizeof(line), stdin)) return NULL;
-        
-        if (strncmp(line, "Content-Length: ", 16) == 0) {
-            content_len = atoi(line + 16);
-        } else if (strcmp(line, "\r\n") == 0 || strcmp(line, "\n") == 0) { 
-            // Handle both \r\n and \n just in case, though spec says \r\n
-            break; // End of headers
+        if (!fgets(line, sizeof(line), stdin)) return false;
+
+        if (line_start) {
+            size_t n = 0;
+            while (name[n] && tolower((unsigned char)line[n]) == name[n]) n++;
+            if (!name[n]) {
+                content_len = strtoull(line + n, NULL, 10);
+            } else if (strcmp(line, "\r\n") == 0 || strcmp(line, "\n") == 0) {
+                // Handle both \r\n and \n just in case, though spec says \r\n
+                break; // End of headers
+            }
         }
+        line_start = strchr(line, '\n') != NULL;
     }
-    
-    if (content_len == 0) return NULL;
-    
-    char* buf = malloc(content_len + 1);
-    if (!buf) return NULL;
-    size_t read_len = fread(buf, 1, content_len, stdin);
+
+    if (content_len >= SIZE_MAX) return false;
+    char* buf = malloc((size_t)content_len + 1);
+    if (!buf) return false;
+    size_t read_len = fread(buf, 1, (size_t)content_len, stdin);
     buf[read_len] = 0;
-    
-    cJSON* json = cJSON_Parse(buf);
+
+    *out = (read_len == content_len) ? cJSON_Parse(buf) : NULL;
     free(buf);
-    return json;
+    return read_len == content_len;
 }
 
-static void send_response(cJSON* id, cJSON* result) {
+// Takes ownership of the result. Notifications (no id) get no response.
+static void send_response(const cJSON* id, cJSON* result) {
+    if (!id) {
+        cJSON_Delete(result);
+        return;
+    }
     cJSON* res = cJSON_CreateObject();
     cJSON_AddStringToObject(res, "jsonrpc", "2.0");
-    if (id) cJSON_AddItemToObject(res, "id", cJSON_Duplicate(id, 1));
+    cJSON_AddItemToObject(res, "id", cJSON_Duplicate(id, 1));
     cJSON_AddItemToObject(res, "result", result);
     send_json(res);
     cJSON_Delete(res);
 }
 
+#define RPC_PARSE_ERROR      (-32700)
+#define RPC_INVALID_REQUEST  (-32600)
+#define RPC_METHOD_NOT_FOUND (-32601)
+#define RPC_INVALID_PARAMS   (-32602)
+
+static void send_error(const cJSON* id, int code, const char* message) {
+    cJSON* res = cJSON_CreateObject();
+    cJSON_AddStringToObject(res, "jsonrpc", "2.0");
+    cJSON_AddItemToObject(res, "id", id ? cJSON_Duplicate(id, 1) : cJSON_CreateNull());
+    cJSON* error = cJSON_AddObjectToObject(res, "error");
+    cJSON_AddNumberToObject(error, "code", code);
+    cJSON_AddStringToObject(error, "message", message);
+    send_json(res);
+    cJSON_Delete(res);
+}
+
+// The document a request is about; an error response is sent if it names none
+static const char* request_uri(const cJSON* id, const cJSON* params) {
+    cJSON* doc = cJSON_GetObjectItemCaseSensitive(params, "textDocument");
+    cJSON* uri = cJSON_GetObjectItemCaseSensitive(doc, "uri");
+    if (cJSON_IsString(uri)) return uri->valuestring;
+    if (id) send_error(id, RPC_INVALID_PARAMS, "Missing textDocument.uri");
+    return NULL;
+}
+
+static bool request_position(const cJSON* id, const cJSON* params, int* line, int* character) {
+    cJSON* pos = cJSON_GetObjectItemCaseSensitive(params, "position");
+    cJSON* l = cJSON_GetObjectItemCaseSensitive(pos, "line");
+    cJSON* c = cJSON_GetObjectItemCaseSensitive(pos, "character");
+    if (cJSON_IsNumber(l) && cJSON_IsNumber(c)) {
+        *line = l->valueint;
+        *character = c->valueint;
+        return true;
+    }
+    if (id) send_error(id, RPC_INVALID_PARAMS, "Missing position");
+    return false;
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -140,44 +191,23 @@ static char* doc_get(const char* uri) {
     return NULL;
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wunused-function"
-#endif
-
 static void doc_remove(const char* uri) {
-    (void)uri;
-    /*
     for (size_t i = 0; i < doc_count; i++) {
         if (strcmp(docs[i].uri, uri) == 0) {
             free(docs[i].uri);
             free(docs[i].content);
-            if (i < doc_count - 1) {
-                docs[i] = docs[doc_count - 1];
-            }
+            docs[i] = docs[doc_count - 1];
             doc_count--;
             return;
         }
     }
-    */
 }
 
 static void handle_didClose(cJSON* params) {
-    (void)params; // Unused
-    /*
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
-        doc_remove(uri->valuestring);
-    }
-    */
+    const char* uri = request_uri(NULL, params);
+    if (uri) doc_remove(uri);
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
 // --- Analysis Logic ---
 
 static const char* get_type_name(uint8_t type) {
@@ -200,160 +230,168 @@ static const char* get_type_name(uint8_t type) {
 // Helper to analyze a source string and find definition for symbol at position
 typedef struct {
     int found;
+    int is_builtin; // Part of the language, defined nowhere
     int def_line;
-    char* def_file;
+    char* def_file; // NULL if it is the document itself
     char* symbol_name;
     char* doc_comment;
     char* type_details;
 } AnalysisResult;
 
-// We need to parse the file to build the registry.
-// But we also need to find what symbol is under the cursor.
-// We can re-tokenize the source to find the token at (line, char).
-// Then look up that token in the registry.
+// Parses a document the way the compiler does, collecting definitions and errors
+typedef struct {
+    Parser p;
+    char* path; // Canonical path of the document, as imports and definitions name it
+} Analysis;
+
+static void analysis_init(Analysis* a, const char* source, const char* path) {
+    Parser* p = &a->p;
+    memset(p, 0, sizeof(*p));
+    a->path = cnd_canonicalize_path(path);
+    p->silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
+
+    buf_init(&p->global_bc);
+    strtab_init(&p->strtab);
+    strtab_init(&p->imports);
+    reg_init(&p->registry);
+    enum_reg_init(&p->enums);
+    p->target = &p->global_bc;
+    p->current_path = a->path;
+    strtab_add(&p->imports, a->path, (int)strlen(a->path)); // Prevent self-import
+
+    lexer_init(&p->lexer, source);
+    advance(p);
+    parse_top_level(p);
+}
+
+static size_t analysis_error_count(const Analysis* a) {
+    size_t count = (size_t)a->p.error_count;
+    return count < a->p.error_cap ? count : a->p.error_cap;
+}
+
+static void analysis_free(Analysis* a) {
+    Parser* p = &a->p;
+    for (size_t i = 0; i < analysis_error_count(a); i++) free(p->errors[i].message);
+    free(p->errors);
+    buf_free(&p->global_bc);
+    strtab_free(&p->strtab);
+    strtab_free(&p->imports);
+    reg_free(&p->registry);
+    enum_reg_free(&p->enums);
+    free(a->path);
+}
+
+// The place in the source a position refers to: lines count from 0, characters in
+// UTF-16 units and no further than the end of the line. NULL if there is no such line.
+static const char* position_to_cursor(const char* source, int line, int character) {
+    const char* c = source;
+    if (line < 0 || character < 0) return NULL;
+    for (int l = 0; l < line; l++) {
+        c = strchr(c, '\n');
+        if (!c) return NULL;
+        c++;
+    }
+    while (character > 0 && *c && *c != '\n') {
+        unsigned char lead = (unsigned char)*c++;
+        while (((unsigned char)*c & 0xC0) == 0x80) c++;
+        character -= (lead >= 0xF0) ? 2 : 1;
+    }
+    return c;
+}
+
+static char* copy_text(const char* start, int length) {
+    char* s = malloc((size_t)length + 1);
+    memcpy(s, start, (size_t)length);
+    s[length] = '\0';
+    return s;
+}
 
 static void analyze_source(const char* source, const char* file_path, int line, int character, AnalysisResult* res) {
-    res->found = 0;
-    res->def_line = 0;
-    res->def_file = NULL;
-    res->symbol_name = NULL;
-    res->doc_comment = NULL;
-    res->type_details = NULL;
-
-    // 1. Setup Parser to build registry
-    Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; 
-    p.silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
-    
-    // Initialize buffers
-    Buffer bc;
-    buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab);
-    strtab_init(&p.imports);
-    reg_init(&p.registry);
-    enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = file_path; // For import resolution (might fail for relative imports if not handled) 
-    
-    advance(&p);
-    parse_top_level(&p);
-    
-    // Registry is now populated. 
-    
-    // 2. Scan tokens again to find the cursor token
+    memset(res, 0, sizeof(*res));
+
+    const char* cursor = position_to_cursor(source, line, character);
+    if (!cursor) return;
+
+    // 1. Parse to build the registry of definitions
+    Analysis analysis;
+    analysis_init(&analysis, source, file_path);
+    Parser* p = &analysis.p;
+
+    // 2. Scan tokens again to find the one at the cursor, which may stand right behind it
     Lexer scanner;
     lexer_init(&scanner, source);
-    
+
     Token target_token = {TOK_EOF, NULL, 0, 0};
     int target_is_decorator = 0;
     Token prev_token = {TOK_EOF, NULL, 0, 0};
-    
+
     for (;;) {
         Token t = lexer_next(&scanner);
-        if (t.type == TOK_EOF) break;
-        
-        // Check intersection
-        // LSP lines are 0-based. Token lines are 1-based (usually).
-        // Let's assume lexer uses 1-based.
-        int tok_line = t.line - 1; 
-        
-        // Calculate column
-        // We need start of line pointer. 
-        // Lexer doesn't store it in Token easily without backtracking.
-        // But we can assume basic matching:
-        // If line matches...
-        if (tok_line == line) {
-            // Check column. 
-            // t.start is pointer into source.
-            // We need to calculate offset from line start.
-            const char* line_start = t.start;
-            while (line_start > source && *(line_start-1) != '\n') line_start--;
-            int col_start = (int)(t.start - line_start);
-            int col_end = col_start + t.length;
-            
-            if (character >= col_start && character <= col_end) {
-                target_token = t;
-                if (prev_token.type == TOK_AT) target_is_decorator = 1;
-                break;
-            }
+        if (t.type == TOK_EOF || t.start > cursor) break;
+        if (t.type == TOK_IDENTIFIER && cursor <= t.start + t.length) {
+            target_token = t;
+            target_is_decorator = (prev_token.type == TOK_AT);
+            break;
         }
-        if (tok_line > line) break; 
         prev_token = t;
     }
-    
-    if (target_token.type == TOK_IDENTIFIER) {
-        if (target_is_decorator) {
-             for (int i = 0; BUILTIN_DECORATORS[i].name; i++) {
-                 if (strlen(BUILTIN_DECORATORS[i].name) == (size_t)target_token.length &&
-                     strncmp(BUILTIN_DECORATORS[i].name, target_token.start, target_token.length) == 0) {
-                     res->found = 1;
-                     res->symbol_name = strdup(BUILTIN_DECORATORS[i].name);
-                     res->doc_comment = strdup(BUILTIN_DECORATORS[i].doc);
-                     res->type_details = strdup(BUILTIN_DECORATORS[i].detail);
-                     res->def_file = strdup("built-in");
-                     res->def_line = 0;
-                     goto cleanup;
-                 }
-             }
+
+    if (target_token.type == TOK_IDENTIFIER && target_is_decorator) {
+        for (int i = 0; BUILTIN_DECORATORS[i].name; i++) {
+            if (strlen(BUILTIN_DECORATORS[i].name) == (size_t)target_token.length &&
+                strncmp(BUILTIN_DECORATORS[i].name, target_token.start, target_token.length) == 0) {
+                res->found = 1;
+                res->is_builtin = 1;
+                res->symbol_name = strdup(BUILTIN_DECORATORS[i].name);
+                res->doc_comment = strdup(BUILTIN_DECORATORS[i].doc);
+                res->type_details = strdup(BUILTIN_DECORATORS[i].detail);
+                break;
+            }
         }
+    }
 
+    if (target_token.type == TOK_IDENTIFIER && !res->found) {
         // Look up in registry
-        StructDef* sdef = reg_find(&p.registry, target_token.start, target_token.length);
-        if (sdef) {
+        StructDef* sdef = reg_find(&p->registry, target_token.start, target_token.length);
+        EnumDef* edef = sdef ? NULL : enum_reg_find(&p->enums, target_token.start, target_token.length);
+        const char* file = sdef ? sdef->file : edef ? edef->file : NULL;
+        const char* doc = sdef ? sdef->doc_comment : edef ? edef->doc_comment : NULL;
+        if (sdef || edef) {
             res->found = 1;
-            res->def_line = sdef->line - 1; // Convert to 0-based
-            if (sdef->file) res->def_file = strdup(sdef->file);
-            if (sdef->doc_comment) res->doc_comment = strdup(sdef->doc_comment);
-            res->symbol_name = malloc(target_token.length + 1);
-            if (res->symbol_name) {
-                memcpy(res->symbol_name, target_token.start, target_token.length);
-                res->symbol_name[target_token.length] = '\0';
-            }
-        } else {
-            EnumDef* edef = enum_reg_find(&p.enums, target_token.start, target_token.length);
-            if (edef) {
-                res->found = 1;
-                res->def_line = edef->line - 1;
-                if (edef->file) res->def_file = strdup(edef->file);
-                if (edef->doc_comment) res->doc_comment = strdup(edef->doc_comment);
-                res->symbol_name = malloc(target_token.length + 1);
-                if (res->symbol_name) {
-                    memcpy(res->symbol_name, target_token.start, target_token.length);
-                    res->symbol_name[target_token.length] = '\0';
-                }
-
-                // Generate type details
-                Buffer tb; buf_init(&tb);
-                char tmp[256];
-                snprintf(tmp, sizeof(tmp), "Type: `%s`\n\nMembers:\n", get_type_name(edef->underlying_type));
-                buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
-                
-                for(size_t i=0; i<edef->count; i++) {
-                    snprintf(tmp, sizeof(tmp), "- `%s` = `%" PRId64 "`\n", edef->values[i].name, edef->values[i].value);
-                    buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
-                }
-                buf_push(&tb, 0);
-                res->type_details = strdup((char*)tb.data);
-                buf_free(&tb);
+            res->def_line = (sdef ? sdef->line : edef->line) - 1; // Convert to 0-based
+            if (file && strcmp(file, analysis.path) != 0) res->def_file = strdup(file);
+            if (doc) res->doc_comment = strdup(doc);
+            res->symbol_name = copy_text(target_token.start, target_token.length);
+        }
+        if (edef) {
+            // Generate type details
+            StringBuilder sb;
+            char value[32];
+            sb_init(&sb);
+            sb_append(&sb, "Type: `");
+            sb_append(&sb, get_type_name(edef->underlying_type));
+            sb_append(&sb, "`\n\nMembers:\n");
+            for (size_t i = 0; i < edef->count; i++) {
+                snprintf(value, sizeof(value), "%" PRId64, edef->values[i].value);
+                sb_append(&sb, "- `");
+                sb_append(&sb, edef->values[i].name);
+                sb_append(&sb, "` = `");
+                sb_append(&sb, value);
+                sb_append(&sb, "`\n");
             }
+            res->type_details = sb_build(&sb);
+            sb_free(&sb);
         }
     }
-    
-    // Cleanup
-cleanup:
-    buf_free(&bc);
-    buf_free(&p.global_bc);
-    strtab_free(&p.strtab);
-    strtab_free(&p.imports);
-    reg_free(&p.registry);
-    enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+
+    analysis_free(&analysis);
+}
+
+static void analysis_result_free(AnalysisResult* res) {
+    free(res->symbol_name);
+    free(res->def_file);
+    free(res->doc_comment);
+    free(res->type_details);
 }
 
 // --- Handlers ---
@@ -364,7 +402,7 @@ static void url_decode(const char* src, char* dst) {
     while (*src) {
         if ((*src == '%') &&
             ((a = src[1]) && (b = src[2])) &&
-            (isxdigit(a) && isxdigit(b))) {
+            (isxdigit((unsigned char)a) && isxdigit((unsigned char)b))) {
             if (a >= 'a') a -= 'a'-'A';
             if (a >= 'A') a -= ('A' - 10);
             else a -= '0';
@@ -392,7 +430,7 @@ static char* file_uri_to_path(const char* uri) {
     
     // Handle Windows "/C:/..." -> "C:/..."
     // Also handle lower case drive letter normalization if needed?
-    if (decoded[0] == '/' && isalpha(decoded[1]) && decoded[2] == ':') {
+    if (decoded[0] == '/' && isalpha((unsigned char)decoded[1]) && decoded[2] == ':') {
         char* fixed = strdup(decoded + 1);
         free(decoded);
         return fixed;
@@ -401,125 +439,66 @@ static char* file_uri_to_path(const char* uri) {
     return decoded;
 }
 
-// --- Bytecode Helpers for Completion ---
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
-    return *(*ptr)++;
+// The text of a document: as opened in the editor, or else as saved
+static char* document_text(const char* uri, const char* path) {
+    char* source = doc_get(uri);
+    return source ? source : read_file_text(path);
 }
 
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
-    uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
-    *ptr += 2;
-    return v;
+static char* path_to_uri(const char* path) {
+    static const char hex[] = "0123456789ABCDEF";
+    StringBuilder sb;
+    sb_init(&sb);
+    // Windows path handling
+    sb_append(&sb, (path[0] && path[1] == ':') ? "file:///" : "file://");
+    for (const char* c = path; *c; c++) {
+        // Normalize backslashes to slashes for URI
+        char plain = (*c == '\\') ? '/' : *c;
+        if (isalnum((unsigned char)plain) || strchr("-._~/:", plain)) {
+            sb_append_c(&sb, plain);
+        } else {
+            sb_append_c(&sb, '%');
+            sb_append_c(&sb, hex[(unsigned char)plain >> 4]);
+            sb_append_c(&sb, hex[(unsigned char)plain & 15]);
+        }
+    }
+    char* uri = sb_build(&sb);
+    sb_free(&sb);
+    return uri;
 }
 
-static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op) {
-    switch (op) {
-        case OP_META_VERSION: *ptr += 1; break;
-        case OP_META_NAME: *ptr += 2; break;
-        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
-        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
-        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
-        case OP_ENTER_STRUCT: *ptr += 2; break;
-        case OP_STR_NULL: *ptr += 4; break;
-        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: *ptr += 2; break;
-        case OP_IO_BIT_U: case OP_IO_BIT_I: *ptr += 3; break;
-        case OP_IO_BIT_BOOL: *ptr += 2; break;
-        case OP_ARR_FIXED: *ptr += 6; break;
-        case OP_RAW_BYTES: *ptr += 6; break;
-        case OP_CONST_WRITE: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8) *ptr += 1;
-            else if (type == OP_IO_U16) *ptr += 2;
-            else if (type == OP_IO_U32) *ptr += 4;
-            else if (type == OP_IO_U64) *ptr += 8;
-            break;
-        }
-        case OP_CONST_CHECK: {
-            *ptr += 2; // key
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) *ptr += 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) *ptr += 8;
-            break;
-        }
-        case OP_RANGE_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 2;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 4;
-            else if (type == OP_IO_U32 || type == OP_IO_I32 || type == OP_IO_F32) *ptr += 8;
-            else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) *ptr += 16;
-            break;
-        }
-        case OP_SCALE_LIN: *ptr += 16; break;
-        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: *ptr += 8; break;
-        case OP_TRANS_POLY: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 8;
-            break;
-        }
-        case OP_TRANS_SPLINE: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 16;
-            break;
-        }
-        case OP_CRC_16: *ptr += 7; break;
-        case OP_CRC_32: *ptr += 13; break;
-        case OP_ENUM_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            uint16_t count = read_u16(ptr, end);
-            int sz = 0;
-            if (type == OP_IO_U8 || type == OP_IO_I8) sz = 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) sz = 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) sz = 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) sz = 8;
-            *ptr += count * sz;
-            break;
-        }
-        case OP_SWITCH: *ptr += 6; break;
-        case OP_JUMP: case OP_JUMP_IF_NOT: *ptr += 4; break;
-        case OP_LOAD_CTX: case OP_STORE_CTX: *ptr += 2; break;
-        case OP_PUSH_IMM: *ptr += 8; break;
-        case OP_ALIGN_PAD: case OP_ALIGN_FILL: *ptr += 1; break;
-        default: break;
+static void add_completion(cJSON* items, const char* label, int kind, const char* detail) {
+    cJSON* item;
+    cJSON_ArrayForEach(item, items) {
+        cJSON* other = cJSON_GetObjectItemCaseSensitive(item, "label");
+        if (strcmp(other->valuestring, label) == 0) return;
     }
+    item = cJSON_CreateObject();
+    cJSON_AddStringToObject(item, "label", label);
+    cJSON_AddNumberToObject(item, "kind", kind);
+    if (detail) cJSON_AddStringToObject(item, "detail", detail);
+    cJSON_AddItemToArray(items, item);
 }
 
 static void handle_completion(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
-    
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
-    if (!source) source = read_file_text(path);
+    int line, character;
+    const char* uri = request_uri(id, params);
+    if (!uri || !request_position(id, params, &line, &character)) return;
+
+    char* path = file_uri_to_path(uri);
+    char* source = document_text(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
         return;
     }
-    
+
     // 1. Parse to build registry
-    Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab); strtab_init(&p.imports);
-    reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
-    
+    Analysis analysis;
+    analysis_init(&analysis, source, path);
+    Parser* p = &analysis.p;
+
     // 2. Scan to find context
     Lexer scanner;
     lexer_init(&scanner, source);
@@ -527,16 +506,9 @@ static void handle_completion(cJSON* id, cJSON* params) {
     Token prev_token = {TOK_EOF, NULL, 0, 0};
     Token prev_prev_token = {TOK_EOF, NULL, 0, 0};
     
-    // Calculate cursor offset
-    size_t cursor_offset = 0;
-    int l = 0;
-    const char* ptr = source;
-    while (*ptr && l < line) {
-        if (*ptr == '\n') l++;
-        ptr++;
-    }
-    cursor_offset = (ptr - source) + character;
-    
+    const char* cursor = position_to_cursor(source, line, character);
+    if (!cursor) cursor = source + strlen(source);
+
     int context_is_enum_member = 0;
     char* enum_name = NULL;
     
@@ -556,17 +528,14 @@ static void handle_completion(cJSON* id, cJSON* params) {
         Token t = lexer_next(&scanner);
         if (t.type == TOK_EOF) break;
         
-        size_t token_start = t.start - source;
-        if (token_start >= cursor_offset) break; // Reached cursor
+        if (t.start >= cursor) break; // Reached cursor
         
         // Decorator Context
         if (t.type == TOK_LPAREN) {
             paren_depth++;
             if (prev_token.type == TOK_IDENTIFIER && prev_prev_token.type == TOK_AT) {
                 if (active_decorator) free(active_decorator);
-                active_decorator = malloc(prev_token.length + 1);
-                memcpy(active_decorator, prev_token.start, prev_token.length);
-                active_decorator[prev_token.length] = '\0';
+                active_decorator = copy_text(prev_token.start, prev_token.length);
                 decorator_start_depth = paren_depth; 
             }
         } else if (t.type == TOK_RPAREN) {
@@ -584,9 +553,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
             if ((prev_token.type == TOK_IDENTIFIER) && 
                 (prev_prev_token.type == TOK_STRUCT || prev_prev_token.type == TOK_PACKET)) {
                  if (active_struct) free(active_struct);
-                 active_struct = malloc(prev_token.length + 1);
-                 memcpy(active_struct, prev_token.start, prev_token.length);
-                 active_struct[prev_token.length] = '\0';
+                 active_struct = copy_text(prev_token.start, prev_token.length);
                  struct_depth = brace_depth;
             }
         } else if (t.type == TOK_EQUALS) {
@@ -611,14 +578,10 @@ static void handle_completion(cJSON* id, cJSON* params) {
     // Check context: [Identifier] [.] [Cursor]
     if (prev_token.type == TOK_DOT && prev_prev_token.type == TOK_IDENTIFIER) {
         // Check if prev_prev is an Enum
-        EnumDef* edef = enum_reg_find(&p.enums, prev_prev_token.start, prev_prev_token.length);
+        EnumDef* edef = enum_reg_find(&p->enums, prev_prev_token.start, prev_prev_token.length);
         if (edef) {
             context_is_enum_member = 1;
-            enum_name = malloc(prev_prev_token.length + 1);
-            if (enum_name) {
-                memcpy(enum_name, prev_prev_token.start, prev_prev_token.length);
-                enum_name[prev_prev_token.length] = '\0';
-            }
+            enum_name = copy_text(prev_prev_token.start, prev_prev_token.length);
         }
     }
 
@@ -633,14 +596,10 @@ static void handle_completion(cJSON* id, cJSON* params) {
     cJSON* items = cJSON_CreateArray();
     
     if (context_is_enum_member && enum_name) {
-        EnumDef* edef = enum_reg_find(&p.enums, enum_name, (int)strlen(enum_name));
+        EnumDef* edef = enum_reg_find(&p->enums, enum_name, (int)strlen(enum_name));
         if (edef) {
             for (size_t i = 0; i < edef->count; i++) {
-                cJSON* item = cJSON_CreateObject();
-                cJSON* label = cJSON_CreateString(edef->values[i].name);
-                cJSON_AddItemToObject(item, "label", label);
-                cJSON_AddNumberToObject(item, "kind", 20); // EnumMember
-                cJSON_AddItemToArray(items, item);
+                add_completion(items, edef->values[i].name, 20, NULL); // EnumMember
             }
         }
         free(enum_name);
@@ -649,59 +608,35 @@ static void handle_completion(cJSON* id, cJSON* params) {
             // Math Functions
             const char* math_funcs[] = { "sin", "cos", "tan", "sqrt", "log", "abs", "pow" };
             for (size_t i = 0; i < sizeof(math_funcs)/sizeof(char*); i++) {
-                cJSON* item = cJSON_CreateObject();
-                cJSON_AddStringToObject(item, "label", math_funcs[i]);
-                cJSON_AddNumberToObject(item, "kind", 3); // Function
-                cJSON_AddStringToObject(item, "detail", "Math Function");
-                cJSON_AddItemToArray(items, item);
+                add_completion(items, math_funcs[i], 3, "Math Function"); // Function
             }
             
             // Type Conversions
             const char* type_convs[] = { "int", "float" };
             for (size_t i = 0; i < sizeof(type_convs)/sizeof(char*); i++) {
-                cJSON* item = cJSON_CreateObject();
-                cJSON_AddStringToObject(item, "label", type_convs[i]);
-                cJSON_AddNumberToObject(item, "kind", 3); // Function
-                cJSON_AddStringToObject(item, "detail", "Type Conversion");
-                cJSON_AddItemToArray(items, item);
+                add_completion(items, type_convs[i], 3, "Type Conversion"); // Function
             }
         }
 
         // Struct Fields - scan for IO operations which define fields
         if (active_struct) {
-            StructDef* sdef = reg_find(&p.registry, active_struct, (int)strlen(active_struct));
+            StructDef* sdef = reg_find(&p->registry, active_struct, (int)strlen(active_struct));
             if (sdef && sdef->bytecode.data) {
-                const uint8_t* bc_ptr = sdef->bytecode.data;
-                const uint8_t* end = bc_ptr + sdef->bytecode.size;
-                while (bc_ptr < end) {
-                    uint8_t op = read_u8(&bc_ptr, end);
-                    // Check for IO operations that define fields
-                    if (op == OP_IO_U8 || op == OP_IO_U16 || op == OP_IO_U32 || op == OP_IO_U64 ||
-                        op == OP_IO_I8 || op == OP_IO_I16 || op == OP_IO_I32 || op == OP_IO_I64 ||
-                        op == OP_IO_F32 || op == OP_IO_F64 || op == OP_IO_BOOL ||
-                        op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL ||
-                        op == OP_STR_NULL || op == OP_STR_PRE_U8 || op == OP_STR_PRE_U16 || op == OP_STR_PRE_U32 ||
-                        op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_FIXED ||
-                        op == OP_ENTER_STRUCT || op == OP_LOAD_CTX || op == OP_STORE_CTX) {
-                        uint16_t key = read_u16(&bc_ptr, end);
-                        if (key < p.strtab.count) {
-                            // Only add each field once (skip struct markers and use leaf fields)
-                            const char* field_name = p.strtab.strings[key];
-                            // Skip ENTER_STRUCT names (they're not leaf fields)
-                            if (op != OP_ENTER_STRUCT) {
-                                cJSON* item = cJSON_CreateObject();
-                                cJSON_AddStringToObject(item, "label", field_name);
-                                cJSON_AddNumberToObject(item, "kind", 5); // Field
-                                cJSON_AddStringToObject(item, "detail", "Field");
-                                cJSON_AddItemToArray(items, item);
-                            }
+                const uint8_t* bc = sdef->bytecode.data;
+                cnd_il_walker w;
+                size_t at, size;
+                cnd_il_walk(&w, bc, sdef->bytecode.size);
+                while (cnd_il_next(&w, &at, &size) == CND_ERR_OK && size > 0) {
+                    // Check for operations that define fields
+                    uint8_t op = bc[at];
+                    if ((op >= OP_IO_U8 && op <= OP_IO_BIT_BOOL) ||
+                        (op >= OP_STR_NULL && op <= OP_ARR_PRE_U32) ||
+                        op == OP_ARR_EOF || op == OP_ARR_DYNAMIC || op == OP_CONST_CHECK ||
+                        op == OP_LOAD_CTX || op == OP_STORE_CTX) {
+                        uint16_t key = read_u16(bc + at + 1, CND_LE);
+                        if (key < p->strtab.count) {
+                            add_completion(items, p->strtab.strings[key], 5, "Field"); // Field
                         }
-                        // Skip remaining bytes for ops that have more data after key
-                        if (op == OP_IO_BIT_U || op == OP_IO_BIT_I) bc_ptr += 1; // bits
-                        else if (op == OP_STR_NULL) bc_ptr += 2; // max_len
-                        else if (op == OP_ARR_FIXED) bc_ptr += 4; // count
-                    } else {
-                        skip_instruction(&bc_ptr, end, op);
                     }
                 }
             }
@@ -734,20 +669,20 @@ static void handle_completion(cJSON* id, cJSON* params) {
         }
         
         // Add Structs
-        for (size_t i = 0; i < p.registry.count; i++) {
+        for (size_t i = 0; i < p->registry.count; i++) {
             cJSON* item = cJSON_CreateObject();
-            cJSON_AddStringToObject(item, "label", p.registry.defs[i].name);
+            cJSON_AddStringToObject(item, "label", p->registry.defs[i].name);
             cJSON_AddNumberToObject(item, "kind", 7); // Class/Struct
-            if (p.registry.defs[i].doc_comment) cJSON_AddStringToObject(item, "detail", p.registry.defs[i].doc_comment);
+            if (p->registry.defs[i].doc_comment) cJSON_AddStringToObject(item, "detail", p->registry.defs[i].doc_comment);
             cJSON_AddItemToArray(items, item);
         }
         
         // Add Enums
-        for (size_t i = 0; i < p.enums.count; i++) {
+        for (size_t i = 0; i < p->enums.count; i++) {
             cJSON* item = cJSON_CreateObject();
-            cJSON_AddStringToObject(item, "label", p.enums.defs[i].name);
+            cJSON_AddStringToObject(item, "label", p->enums.defs[i].name);
             cJSON_AddNumberToObject(item, "kind", 13); // Enum
-            if (p.enums.defs[i].doc_comment) cJSON_AddStringToObject(item, "detail", p.enums.defs[i].doc_comment);
+            if (p->enums.defs[i].doc_comment) cJSON_AddStringToObject(item, "detail", p->enums.defs[i].doc_comment);
             cJSON_AddItemToArray(items, item);
         }
     }
@@ -758,22 +693,16 @@ static void handle_completion(cJSON* id, cJSON* params) {
     // Cleanup
     if (active_decorator) free(active_decorator);
     if (active_struct) free(active_struct);
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    analysis_free(&analysis);
     free(source); free(path);
 }
 
 static void handle_formatting(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = read_file_text(path);
+    const char* uri = request_uri(id, params);
+    if (!uri) return;
+
+    char* path = file_uri_to_path(uri);
+    char* source = document_text(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -805,11 +734,11 @@ static void handle_formatting(cJSON* id, cJSON* params) {
 }
 
 static void handle_document_symbol(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = read_file_text(path);
+    const char* uri = request_uri(id, params);
+    if (!uri) return;
+
+    char* path = file_uri_to_path(uri);
+    char* source = document_text(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -817,30 +746,24 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     }
     
     // Parse
-    Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
-    
+    Analysis analysis;
+    analysis_init(&analysis, source, path);
+    Parser* p = &analysis.p;
+
     cJSON* symbols = cJSON_CreateArray();
     
     // Structs
-    for (size_t i = 0; i < p.registry.count; i++) {
+    for (size_t i = 0; i < p->registry.count; i++) {
+        if (!p->registry.defs[i].file || strcmp(p->registry.defs[i].file, analysis.path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
-        cJSON_AddStringToObject(sym, "name", p.registry.defs[i].name);
+        cJSON_AddStringToObject(sym, "name", p->registry.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
-        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
-        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
+        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p->registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
+        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p->registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
         cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
         cJSON_AddItemToObject(loc, "range", range);
         
@@ -849,16 +772,17 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     }
     
     // Enums
-    for (size_t i = 0; i < p.enums.count; i++) {
+    for (size_t i = 0; i < p->enums.count; i++) {
+        if (!p->enums.defs[i].file || strcmp(p->enums.defs[i].file, analysis.path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
-        cJSON_AddStringToObject(sym, "name", p.enums.defs[i].name);
+        cJSON_AddStringToObject(sym, "name", p->enums.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
-        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
-        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
+        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p->enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
+        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p->enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
         cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
         cJSON_AddItemToObject(loc, "range", range);
         
@@ -868,30 +792,16 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     send_response(id, symbols);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    analysis_free(&analysis);
     free(source); free(path);
 }
 
 static void publish_diagnostics(const char* uri, const char* source) {
     // Parse to collect errors
-    Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
     char* path = file_uri_to_path(uri);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
-    
+    Analysis analysis;
+    analysis_init(&analysis, source, path);
+
     // Send diagnostics
     cJSON* notification = cJSON_CreateObject();
     cJSON_AddStringToObject(notification, "jsonrpc", "2.0");
@@ -902,9 +812,8 @@ static void publish_diagnostics(const char* uri, const char* source) {
     
     cJSON* diagnostics = cJSON_CreateArray();
     
-    for (size_t i = 0; i < (size_t)p.error_count; i++) {
-        if (i >= (size_t)p.error_cap || !p.errors) break;
-        CompilerError* err = &p.errors[i];
+    for (size_t i = 0; i < analysis_error_count(&analysis); i++) {
+        CompilerError* err = &analysis.p.errors[i];
         
         cJSON* diag = cJSON_CreateObject();
         
@@ -919,10 +828,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
         cJSON_AddStringToObject(diag, "source", "concordia");
         
         cJSON_AddItemToArray(diagnostics, diag);
-        
-        free(err->message);
     }
-    if (p.errors) free(p.errors);
     
     cJSON_AddItemToObject(params, "diagnostics", diagnostics);
     cJSON_AddItemToObject(notification, "params", params);
@@ -930,50 +836,42 @@ static void publish_diagnostics(const char* uri, const char* source) {
     send_json(notification);
     cJSON_Delete(notification);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    // p.errors already freed in loop above
+    analysis_free(&analysis);
     free(path);
 }
 
 static void handle_didOpen(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* text = cJSON_GetObjectItem(doc, "text");
-    if (uri && text && uri->valuestring && text->valuestring) {
-        doc_update(uri->valuestring, text->valuestring);
-        publish_diagnostics(uri->valuestring, text->valuestring);
+    const char* uri = request_uri(NULL, params);
+    cJSON* doc = cJSON_GetObjectItemCaseSensitive(params, "textDocument");
+    cJSON* text = cJSON_GetObjectItemCaseSensitive(doc, "text");
+    if (uri && cJSON_IsString(text)) {
+        doc_update(uri, text->valuestring);
+        publish_diagnostics(uri, text->valuestring);
     }
 }
 
 static void handle_didChange(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* changes = cJSON_GetObjectItem(params, "contentChanges");
-    if (uri && changes && cJSON_GetArraySize(changes) > 0) {
+    const char* uri = request_uri(NULL, params);
+    cJSON* changes = cJSON_GetObjectItemCaseSensitive(params, "contentChanges");
+    if (uri && cJSON_GetArraySize(changes) > 0) {
         // Full sync: last change has full text
         cJSON* lastChange = cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1);
-        cJSON* text = cJSON_GetObjectItem(lastChange, "text");
-        if (text && text->valuestring) {
-            doc_update(uri->valuestring, text->valuestring);
-            publish_diagnostics(uri->valuestring, text->valuestring);
+        cJSON* text = cJSON_GetObjectItemCaseSensitive(lastChange, "text");
+        if (cJSON_IsString(text)) {
+            doc_update(uri, text->valuestring);
+            publish_diagnostics(uri, text->valuestring);
         }
     }
 }
 
 static void handle_didSave(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
+    const char* uri = request_uri(NULL, params);
+    if (uri) {
         // We need source content. If it's a save, we can read from disk.
-        char* path = file_uri_to_path(uri->valuestring);
+        char* path = file_uri_to_path(uri);
         char* source = read_file_text(path);
         if (source) {
-            publish_diagnostics(uri->valuestring, source);
+            publish_diagnostics(uri, source);
             free(source);
         }
         free(path);
@@ -990,7 +888,8 @@ static void handle_initialize(cJSON* id) {
     
     cJSON* comp = cJSON_CreateObject();
     cJSON_AddBoolToObject(comp, "resolveProvider", 0);
-    cJSON_AddStringToObject(comp, "triggerCharacters", "."); 
+    cJSON* triggers = cJSON_AddArrayToObject(comp, "triggerCharacters");
+    cJSON_AddItemToArray(triggers, cJSON_CreateString("."));
     cJSON_AddItemToObject(cap, "completionProvider", comp);
     
     // Advertise text document sync (1 = Full)
@@ -1001,51 +900,29 @@ static void handle_initialize(cJSON* id) {
 }
 
 static void handle_definition(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
-    
-    char* path = file_uri_to_path(uri_item->valuestring);
-    
-    // Read file content
-    char* source = doc_get(uri_item->valuestring);
-    if (!source) source = read_file_text(path);
+    int line, character;
+    const char* uri = request_uri(id, params);
+    if (!uri || !request_position(id, params, &line, &character)) return;
+
+    char* path = file_uri_to_path(uri);
+    char* source = document_text(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
         return;
     }
-    
+
     AnalysisResult res;
     analyze_source(source, path, line, character, &res);
     
-    if (res.found) {
+    if (res.found && !res.is_builtin) {
         cJSON* loc = cJSON_CreateObject();
-        
-        // Use resolved file if available, else fallback to current URI
-        if (res.def_file) {
-            // Convert file path to URI
-            // Hacky: assume absolute path or simple relative?
-            // VS Code expects file:///...
-            // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
-            // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char uri[1024];
-            // Windows path handling
-            if (res.def_file[1] == ':') {
-                snprintf(uri, sizeof(uri), "file:///%s", res.def_file);
-            } else {
-                snprintf(uri, sizeof(uri), "file://%s", res.def_file);
-            }
-            // Normalize backslashes to slashes for URI
-            for(int i=0; uri[i]; i++) if(uri[i] == '\\') uri[i] = '/';
-            
-            cJSON_AddStringToObject(loc, "uri", uri);
-        } else {
-            cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
-        }
+
+        // The document itself goes by the name the client gave it
+        char* def_uri = res.def_file ? path_to_uri(res.def_file) : NULL;
+        cJSON_AddStringToObject(loc, "uri", def_uri ? def_uri : uri);
+        free(def_uri);
 
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject();
@@ -1060,12 +937,10 @@ static void handle_definition(cJSON* id, cJSON* params) {
         cJSON_AddItemToObject(loc, "range", range);
         
         send_response(id, loc);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
     } else {
         send_response(id, cJSON_CreateNull());
     }
+    analysis_result_free(&res);
     
     free(source);
     free(path);
@@ -1073,22 +948,19 @@ static void handle_definition(cJSON* id, cJSON* params) {
 
 static void handle_hover(cJSON* id, cJSON* params) {
     // Similar to definition, but returns markdown
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
-    
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
-    if (!source) source = read_file_text(path);
+    int line, character;
+    const char* uri = request_uri(id, params);
+    if (!uri || !request_position(id, params, &line, &character)) return;
+
+    char* path = file_uri_to_path(uri);
+    char* source = document_text(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
         return;
     }
-    
+
     AnalysisResult res;
     analyze_source(source, path, line, character, &res);
     
@@ -1097,31 +969,36 @@ static void handle_hover(cJSON* id, cJSON* params) {
         cJSON* contents = cJSON_CreateObject();
         cJSON_AddStringToObject(contents, "kind", "markdown");
         
-        char msg[4096]; // Increased buffer size
-        const char* file_display = res.def_file ? res.def_file : "current file";
-        
-        int offset = 0;
-        offset += snprintf(msg + offset, sizeof(msg) - offset, "**%s**\n\nDefined in %s on line %d.", res.symbol_name, file_display, res.def_line + 1);
-        
+        StringBuilder msg;
+        sb_init(&msg);
+        sb_append(&msg, "**");
+        sb_append(&msg, res.symbol_name);
+        if (res.is_builtin) {
+            sb_append(&msg, "**\n\nBuilt-in.");
+        } else {
+            char line_text[32];
+            snprintf(line_text, sizeof(line_text), " on line %d.", res.def_line + 1);
+            sb_append(&msg, "**\n\nDefined in ");
+            sb_append(&msg, res.def_file ? res.def_file : path);
+            sb_append(&msg, line_text);
+        }
         if (res.doc_comment) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.doc_comment);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.doc_comment);
         }
-
         if (res.type_details) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.type_details);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.type_details);
         }
-        
-        cJSON_AddStringToObject(contents, "value", msg);
-        
+        cJSON_AddStringToObject(contents, "value", msg.data);
+        sb_free(&msg);
+
         cJSON_AddItemToObject(h, "contents", contents);
         send_response(id, h);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
-        if (res.type_details) free(res.type_details);
     } else {
         send_response(id, cJSON_CreateNull());
     }
+    analysis_result_free(&res);
     
     free(source);
     free(path);
@@ -1136,14 +1013,18 @@ int cmd_lsp(int argc, char** argv) {
 
     // Standard LSP loop
     while (1) {
-        cJSON* req = read_json();
-        if (!req) break;
-        
-        cJSON* id = cJSON_GetObjectItem(req, "id");
-        cJSON* method = cJSON_GetObjectItem(req, "method");
-        cJSON* params = cJSON_GetObjectItem(req, "params");
-        
-        if (method && method->valuestring) {
+        cJSON* req;
+        if (!read_json(&req)) break;
+        if (!req) {
+            send_error(NULL, RPC_PARSE_ERROR, "Parse error");
+            continue;
+        }
+
+        cJSON* id = cJSON_GetObjectItemCaseSensitive(req, "id");
+        cJSON* method = cJSON_GetObjectItemCaseSensitive(req, "method");
+        cJSON* params = cJSON_GetObjectItemCaseSensitive(req, "params");
+
+        if (cJSON_IsString(method)) {
             if (strcmp(method->valuestring, "initialize") == 0) {
                 handle_initialize(id);
             } else if (strcmp(method->valuestring, "textDocument/definition") == 0) {
@@ -1162,12 +1043,20 @@ int cmd_lsp(int argc, char** argv) {
                 handle_didChange(params);
             } else if (strcmp(method->valuestring, "textDocument/didSave") == 0) {
                 handle_didSave(params);
+            } else if (strcmp(method->valuestring, "textDocument/didClose") == 0) {
+                handle_didClose(params);
             } else if (strcmp(method->valuestring, "shutdown") == 0) {
                 send_response(id, cJSON_CreateNull());
             } else if (strcmp(method->valuestring, "exit") == 0) {
                 cJSON_Delete(req);
                 return 0;
+            } else if (id) {
+                send_error(id, RPC_METHOD_NOT_FOUND, "Method not found");
             }
+        } else if (!cJSON_IsObject(req) ||
+                   (!cJSON_HasObjectItem(req, "result") && !cJSON_HasObjectItem(req, "error"))) {
+            // Neither a request nor a response to one
+            send_error(id, RPC_INVALID_REQUEST, "Invalid request");
         }
         
         cJSON_Delete(req);
-- 
2.43.0


From 1f5e54596d1926e968f43b728c05eb53281b1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 28/47] fix: Go binding reports closed programs and missing
 handlers as errors and reads only real strings

---
 go/concordia.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/go/concordia.go b/go/concordia.go
index d9eda24..4a63df1 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -193,6 +193,10 @@ func (p *Program) GetKeyID(name string) uint16 {
 
 // Execute runs the VM with the given data
 func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
+	if p == nil || p.cProg == nil {
+		return errors.New("program is closed")
+	}
+
 	var cData unsafe.Pointer
 	var cDataLen C.size_t
 	if len(data) > 0 {
@@ -243,7 +247,7 @@ func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
 
 	// Copy data back if needed
 	if len(data) > 0 && cData != nil {
-		copy(data, C.GoBytes(cData, C.int(cDataLen)))
+		copy(data, unsafe.Slice((*byte)(cData), len(data)))
 	}
 
 	return parseError(Error(ret))
@@ -273,6 +277,11 @@ func go_io_callback_gateway(userPtr unsafe.Pointer, mode C.int, endianness C.int
 	// Free strings from the PREVIOUS callback call
 	wrapper.ctx.FreePending()
 
+	// Without a handler no field can be delivered
+	if wrapper.cb == nil {
+		return C.int(ErrCallback)
+	}
+
 	// Update mode and endianness in context
 	wrapper.ctx.mode = Mode(mode)
 	wrapper.ctx.endianness = int(endianness)
@@ -292,7 +301,20 @@ func go_io_callback_gateway(userPtr unsafe.Pointer, mode C.int, endianness C.int
 
 func (v Value) String() string {
 	ptr := v.ptr
+	if ptr == nil {
+		return ""
+	}
 	typeOp := uint8(v.op)
+	if v.ctx.mode == ModeEncode {
+		// While encoding, the slot holds the C string set so far
+		switch typeOp {
+		case C.OP_STR_NULL, C.OP_STR_PRE_U8, C.OP_STR_PRE_U16, C.OP_STR_PRE_U32:
+			if cs := *(**C.char)(ptr); cs != nil {
+				return C.GoString(cs)
+			}
+		}
+		return ""
+	}
 	switch typeOp {
 	case C.OP_STR_NULL:
 		return C.GoString((*C.char)(ptr))
-- 
2.43.0


From 8d550d40f76295ae770feff42a985b26b202b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 29/47] fix: CRC-32 table path mirrors the initial value like
 the bitwise path

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 233a1c0..6c7598f 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -531,7 +531,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32); // the table works on the mirrored register
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From 55d52d3d29b90a8f76e7adc5d3af11dfd168f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:04 +0000
Subject: [PATCH 30/47] fix: spline encoding follows the last segment past its
 knot like decoding does

---
 src/vm/vm_exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 6c7598f..1701879 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -85,7 +85,8 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
             memcpy(&tmp, ctx->trans_spline_data + (i * 2 + 1) * 8, 8); memcpy(&y0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2) * 8, 8); memcpy(&x1, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2 + 1) * 8, 8); memcpy(&y1, &tmp, 8);
-            if ((target_y >= y0 && target_y <= y1) || (target_y <= y0 && target_y >= y1)) {
+            if ((target_y >= y0 && target_y <= y1) || (target_y <= y0 && target_y >= y1) ||
+                (i == ctx->trans_spline_count - 2)) { // the last segment extends, as in eval
                 if (y1 == y0) x = x0;
                 else x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
                 break;
-- 
2.43.0


From 3044253a2cdeb4666144550939ffee656259b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 31/47] fix: formatting a comment ending in several carriage
 returns twice changes nothing

---
 src/compiler/cnd_fmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index f2b1632..bc1906e 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -81,7 +81,7 @@ static FmtToken fmt_next(FmtLexer* l) {
             l->current++;
         }
         t.length = (int)(l->current - t.start);
-        if (t.start[t.length - 1] == '\r') t.length--;
+        while (t.start[t.length - 1] == '\r') t.length--;
         return t;
     }
 
-- 
2.43.0


From c2f899a3a71433c01f90ecbbc49dc89640af32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 32/47] fix: imports of a file with a backslash in its name
 were looked up in the wrong place

---
 src/compiler/cnd_parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 6a2eff9..08836a8 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1653,10 +1653,12 @@ char* resolve_path(const char* base, const char* rel) {
     if (rel[0] == '/') return strdup(rel);
 
     // Find last slash in base
-    const char* last_slash = strrchr(base, '/');
+    const char* slash = strrchr(base, '/');
+#ifdef _WIN32
     const char* last_backslash = strrchr(base, '\\');
-    const char* slash = (last_slash > last_backslash) ? last_slash : last_backslash;
-    
+    if (last_backslash > slash) slash = last_backslash;
+#endif
+
     size_t base_len = 0;
     if (slash) {
         base_len = slash - base + 1;
-- 
2.43.0


From c7b26c798cf0e991c804105560a5626d55779189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 33/47] fix: a doc comment after @import, @version or any other
 decorator was a syntax error

---
 src/compiler/cnd_parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 08836a8..8292784 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -916,7 +916,8 @@ void parse_field(Parser* p, const char* doc) {
     // size_t jump_patches[8]; // Max 8 pending jumps
     // int jump_count = 0;
     
-    while (p->current.type == TOK_AT) {
+    while (p->current.type == TOK_AT || p->current.type == TOK_DOC_COMMENT) {
+        if (p->current.type == TOK_DOC_COMMENT) { advance(p); continue; }
         advance(p); // Consume the '@'
         Token dec_name_token = p->current; // Save token of decorator name
         if (p->verbose) printf("    [Decorator] @%.*s\n", dec_name_token.length, dec_name_token.start);
@@ -1782,6 +1783,9 @@ void parse_top_level(Parser* p) {
             }
         }
 
+        // Documentation may also stand between the decorators and the definition
+        if (p->current.type == TOK_DOC_COMMENT) continue;
+
         char* doc_str = doc_sb.length > 0 ? sb_build(&doc_sb) : NULL;
 
         if (p->current.type == TOK_STRUCT) {
-- 
2.43.0


From f7255f43d26094db9eba85f0bb5b171c5bd1826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 34/47] fix: point at the token that is not an expression, not
 at the one after it

---
 src/compiler/cnd_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8292784..95d9a15 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -180,7 +180,7 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
-        parser_error(p, "Expect expression");
+        parser_error_at(p, p->previous, "Expect expression");
         p->nesting--;
         return TYPE_UNKNOWN;
     }
-- 
2.43.0


From a62a6d070f0f772f394ef519bb6dcb65b5da40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:03 +0000
Subject: [PATCH 35/47] fix: refuse a JSON value of the wrong type for an
 optional string

---
 include/cli_helpers.h  | 1 +
 src/cli/cmd_encode.c   | 1 +
 src/cli/json_binding.c | 6 +++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 9727a21..f52ba4c 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -62,6 +62,7 @@ typedef struct {
     int array_depth;
 
     bool full;  // Encode: the space ended before the elements of an until-end array
+    bool wrong; // Encode: a value that does not fit its field was refused
     // Encode: an until-end array ran out of elements at this position
     bool ended;
     size_t end;
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index 30acb73..35942c7 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -52,6 +52,7 @@ int cmd_encode(int argc, char** argv) {
         err = encode_into(&il, root, capacity, &buffer, &vm, &io_ctx);
         bool ended = io_ctx.ended;
         bool full = io_ctx.full;
+        if (err == CND_ERR_OK && io_ctx.wrong) err = CND_ERR_CALLBACK;
         size_t end = io_ctx.end;
         json_io_free(&io_ctx);
 
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 5c57c56..299679d 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -514,5 +514,9 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
         return push_struct(io, item, key_name_full);
     }
     // A missing value is zero or empty, as the VM has initialized it
-    return item ? encode_value(type, ptr, item) : CND_ERR_OK;
+    if (!item) return CND_ERR_OK;
+    cnd_error_t err = encode_value(type, ptr, item);
+    // The VM only leaves an optional string out if it is refused
+    if (err != CND_ERR_OK) io->wrong = true;
+    return err;
 }
-- 
2.43.0


From e96debf892bf8adc221007bc8561c45cfca78902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:03 +0000
Subject: [PATCH 36/47] fix: let JSON say how many elements an array of
 constants has

---
 src/cli/json_binding.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 299679d..3915e8d 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -375,7 +375,8 @@ static cnd_error_t array_end(IOCtx* io, cnd_vm_ctx* ctx) {
     if (io->array_depth == 0) return CND_ERR_CALLBACK;
     JSONArray* arr = &io->arrays[--io->array_depth];
     if (ctx->mode == CND_MODE_ENCODE) {
-        if (!arr->next) return CND_ERR_OK;
+        // Constants are not asked for: the elements only say how many there are
+        if (!arr->next || (!arr->until_end && arr->next == arr->item->child)) return CND_ERR_OK;
         io->full = arr->until_end; // Otherwise elements nobody asked for
         return CND_ERR_CALLBACK;
     }
-- 
2.43.0


From d54a57894d44eb43ce0e901a113fc6be6b47c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 37/47] fix: encode the until-end array also if the space ends
 right in front of it

---
 src/cli/cmd_encode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index 35942c7..5d58195 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -53,13 +53,15 @@ int cmd_encode(int argc, char** argv) {
         bool ended = io_ctx.ended;
         bool full = io_ctx.full;
         if (err == CND_ERR_OK && io_ctx.wrong) err = CND_ERR_CALLBACK;
+        // With no space left an until-end array is passed over
+        bool skipped = err == CND_ERR_OK && vm.cursor == capacity;
         size_t end = io_ctx.end;
         json_io_free(&io_ctx);
 
         if (err == CND_ERR_CALLBACK && ended && !exact) {
             exact = true;
             capacity = end;
-        } else if ((err == CND_ERR_OOB || full) && !exact && capacity < MAX_PACKET_SIZE) {
+        } else if ((err == CND_ERR_OOB || full || skipped) && !exact && capacity < MAX_PACKET_SIZE) {
             capacity *= 2;
         } else {
             break;
-- 
2.43.0


From 91288bd5c3c58ce8154828e1798f6d9f238779b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 38/47] fix: keep values replaced by computed fields until
 encoding ends, an open array may point into them

---
 include/cli_helpers.h  |  2 ++
 src/cli/json_binding.c | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index f52ba4c..ebec762 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -61,6 +61,8 @@ typedef struct {
     JSONArray arrays[CND_MAX_LOOP_DEPTH]; // Stack for nested arrays
     int array_depth;
 
+    cJSON* replaced; // Encode: values given for computed fields, which an open array may still point into
+
     bool full;  // Encode: the space ended before the elements of an until-end array
     bool wrong; // Encode: a value that does not fit its field was refused
     // Encode: an until-end array ran out of elements at this position
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 3915e8d..76c2817 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -26,7 +26,11 @@ int json_io_init(IOCtx* io, ILFile* il, const cnd_program* program, cJSON* root,
     io->hex_mode = hex_mode;
     io->stack_cap = 16;
     io->stack = malloc(io->stack_cap * sizeof(*io->stack));
-    if (!io->stack) return 0;
+    io->replaced = cJSON_CreateArray();
+    if (!io->stack || !io->replaced) {
+        json_io_free(io);
+        return 0;
+    }
     io->stack[0].object = root;
     io->stack[0].name = NULL;
     return 1;
@@ -35,6 +39,7 @@ int json_io_init(IOCtx* io, ILFile* il, const cnd_program* program, cJSON* root,
 void json_io_free(IOCtx* io) {
     for (int i = 0; i < io->array_depth; i++) free(io->arrays[i].hex);
     free(io->stack);
+    cJSON_Delete(io->replaced);
     memset(io, 0, sizeof(*io));
 }
 
@@ -470,7 +475,8 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
             default: val = unsigned_item(word); break;
         }
         if (ctx->mode == CND_MODE_ENCODE) {
-            cJSON_DeleteItemFromObjectCaseSensitive(io->stack[io->depth].object, key_name);
+            cJSON* given = cJSON_DetachItemFromObjectCaseSensitive(io->stack[io->depth].object, key_name);
+            if (given) cJSON_AddItemToArray(io->replaced, given);
         }
         return add_value(io, key_name, val);
     }
-- 
2.43.0


From 087c12bf574855d07e80f959190bdfc5dfa3f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 39/47] fix: gen_bindings counts every enum's implicit values
 from 0

---
 src/tools/gen_bindings.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tools/gen_bindings.c b/src/tools/gen_bindings.c
index ab5e2e6..a891068 100644
--- a/src/tools/gen_bindings.c
+++ b/src/tools/gen_bindings.c
@@ -130,6 +130,12 @@ void process_line(char *line) {
     char *ptr = line;
     while (*ptr && isspace(*ptr)) ptr++;
     
+    // Every enum counts from 0
+    static int last_val = -1;
+    if (strstr(line, "enum")) {
+        last_val = -1;
+    }
+
     if (strncmp(ptr, "CND_", 4) == 0) {
         char *eq = strchr(ptr, '=');
         
@@ -141,14 +147,7 @@ void process_line(char *line) {
         strncpy(name, ptr, len);
         name[len] = '\0';
 
-        // Determine value
-        static int last_val = -1;
-        
-        // Check if we switched enum blocks (heuristic: prefix change)
-        // Actually, C enums reset to 0 if not specified, but usually they are in a block.
-        // We can just rely on the fact that if '=' is present, we parse it.
-        // If not, we increment last_val.
-        
+        // Determine value: given after '=', or one more than the last
         if (eq) {
             char *val_start = eq + 1;
             while (*val_start && isspace(*val_start)) val_start++;
-- 
2.43.0


From c89220488ea61228841560785b86c86ebdc98c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:44 +0000
Subject: [PATCH 40/47] fix: Go Execute must run the program on an empty
 buffer, not fail for want of a pointer

---
 go/concordia.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/go/concordia.go b/go/concordia.go
index 4a63df1..96378ce 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -197,13 +197,10 @@ func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
 		return errors.New("program is closed")
 	}
 
-	var cData unsafe.Pointer
-	var cDataLen C.size_t
-	if len(data) > 0 {
-		cData = C.CBytes(data)
-		defer C.free(cData)
-		cDataLen = C.size_t(len(data))
-	}
+	// An empty buffer is a buffer too: the VM takes NULL as an error
+	cData := C.CBytes(data)
+	defer C.free(cData)
+	cDataLen := C.size_t(len(data))
 
 	cCtx := (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
 	if cCtx == nil {
-- 
2.43.0


From cfd46613ec4f483f798c85b5ca92bae5dcd93642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 41/47] fix: LSP locations must not turn a backslash in a file
 name into a slash

---
 src/cli/cmd_lsp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 8be4f05..d02fae7 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -450,10 +450,11 @@ static char* path_to_uri(const char* path) {
     StringBuilder sb;
     sb_init(&sb);
     // Windows path handling
-    sb_append(&sb, (path[0] && path[1] == ':') ? "file:///" : "file://");
+    bool windows = path[0] && path[1] == ':';
+    sb_append(&sb, windows ? "file:///" : "file://");
     for (const char* c = path; *c; c++) {
-        // Normalize backslashes to slashes for URI
-        char plain = (*c == '\\') ? '/' : *c;
+        // Normalize backslashes to slashes for URI; elsewhere they are part of a name
+        char plain = (windows && *c == '\\') ? '/' : *c;
         if (isalnum((unsigned char)plain) || strchr("-._~/:", plain)) {
             sb_append_c(&sb, plain);
         } else {
-- 
2.43.0


From f375c6400fb07b1bddf62207da95572beea62903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:24 +0000
Subject: [PATCH 42/47] fix: show the values of an enum based on uint64 as
 unsigned in the language server

---
 src/cli/cmd_lsp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index d02fae7..32d51a1 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -372,7 +372,8 @@ static void analyze_source(const char* source, const char* file_path, int line,
             sb_append(&sb, get_type_name(edef->underlying_type));
             sb_append(&sb, "`\n\nMembers:\n");
             for (size_t i = 0; i < edef->count; i++) {
-                snprintf(value, sizeof(value), "%" PRId64, edef->values[i].value);
+                if (edef->underlying_type == OP_IO_U64) snprintf(value, sizeof(value), "%" PRIu64, (uint64_t)edef->values[i].value);
+                else snprintf(value, sizeof(value), "%" PRId64, edef->values[i].value);
                 sb_append(&sb, "- `");
                 sb_append(&sb, edef->values[i].name);
                 sb_append(&sb, "` = `");
-- 
2.43.0


From 7935a1535a55c57d46a2950fb29655e8dfb4dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 43/47] fix: embedding structs goes on for minutes after the
 names have run out

---
 src/compiler/cnd_parser.c | 4 ++++
 src/compiler/cnd_utils.c  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 95d9a15..7f7bd9e 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1270,6 +1270,10 @@ void parse_field(Parser* p, const char* doc) {
                 parser_error(p, "Struct cannot be expressed in IL");
                 return;
             }
+            if (p->strtab.overflow) {
+                parser_error(p, "Too many names"); // And embedding this struct again would only add more
+                return;
+            }
             if (field_endian != OP_NOOP || p->in_bit_mode) {
                 il_resolve_endian(p->target->data + body, p->target->size - body,
                                   field_endian != OP_SET_ENDIAN_LE);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 0612ecb..f69b6f4 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -135,6 +135,7 @@ typedef struct {
 
 static uint16_t map_prefixed(void* user, uint16_t key) {
     PrefixMap* m = (PrefixMap*)user;
+    if (m->strtab->overflow) return 0;
     const char* name = (key < m->strtab->count) ? m->strtab->strings[key] : "";
     StringBuilder sb;
     sb_init(&sb);
-- 
2.43.0


From 43becc2a65ecdf0032470dc92e37a3e19951a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:10 +0000
Subject: [PATCH 44/47] fix: bound the jump table index before scaling it

A table that claims a span of about 2^62 entries or more let a discriminant
pick an entry just before the bytecode: the index times four wrapped around.
---
 src/vm/vm_exec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1701879..b5aa3f3 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1424,11 +1424,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     uint64_t index = disc_val - min_val;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
                     // We are currently at table_start + 20 (ctx->ip)
-                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
-                    
                     // Check bounds for the offset entry
-                    if (offset_loc + 4 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                    if (index >= (ctx->program->bytecode_len - ctx->ip) / 4) return CND_ERR_OOB;
                     
+                    size_t offset_loc = ctx->ip + (size_t)index * 4;
                     target_off = (int32_t)peek_il_u32(ctx, offset_loc);
                 }
                 
-- 
2.43.0


From bb31a8d2f30dda85c7741bf4338664dfd027e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:10 +0000
Subject: [PATCH 45/47] fix: compare 32-bit lengths and counts with what is
 left of the buffer

Where size_t has 32 bits the cursor plus a length near 2^32 wrapped around and
passed the check: the host was handed a string or byte block past the buffer.
---
 src/vm/vm_exec.c     | 6 +++---
 src/vm/vm_internal.h | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index b5aa3f3..12d6dd3 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -398,7 +398,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     if ((next_op == OP_IO_U8 || next_op == OP_IO_I8) && after_op == OP_ARR_END) {
         uint16_t elem_key = (uint16_t)(ctx->program->bytecode[ctx->ip + 1] | (ctx->program->bytecode[ctx->ip + 2] << 8));
         
-        if (ctx->cursor + count > ctx->data_len) return false; // Let normal loop handle OOB
+        if (!bytes_available(ctx, count)) return false; // Let normal loop handle OOB
         
         void* ptr = ctx->data_buffer + ctx->cursor;
         
@@ -469,7 +469,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (optional && ctx->cursor >= ctx->data_len) break; \
             if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (READ_EXPR); \
-            if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
+            if (len_val > ctx->data_len - ctx->cursor - (size)) return CND_ERR_OOB; \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -1328,7 +1328,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t key = FETCH_IL_U16(ctx);
                 uint32_t count = FETCH_IL_U32(ctx);
                 
-                if (ctx->cursor + count > ctx->data_len) return CND_ERR_OOB;
+                if (!bytes_available(ctx, count)) return CND_ERR_OOB;
                 
                 // Callback receives/provides pointer to data in buffer
                 // For Encode: Callback writes TO this pointer
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index c9e791f..f302338 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -93,6 +93,11 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// Do the next `count` bytes lie inside the data buffer?
+static inline bool bytes_available(const cnd_vm_ctx* ctx, size_t count) {
+    return ctx->cursor <= ctx->data_len && count <= ctx->data_len - ctx->cursor;
+}
+
 // Do the next `count` bits lie inside the data buffer?
 static inline bool bits_available(const cnd_vm_ctx* ctx, uint8_t count) {
     size_t bytes = ((size_t)ctx->bit_offset + count + 7) / 8;
-- 
2.43.0


From 4814276579a7d769cfa9a348701d065a5705f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:10 +0000
Subject: [PATCH 46/47] fix: a switch table offset does not wrap around 32-bit
 sizes

---
 src/vm/vm_exec.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 12d6dd3..4b68497 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1350,9 +1350,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // IP is now at the start of the code block (immediately after SWITCH instruction)
                 SYNC_IP();
                 size_t code_start_ip = ctx->ip;
-                size_t table_start_ip = code_start_ip + table_rel_offset;
                 
-                if (table_start_ip > ctx->program->bytecode_len) return CND_ERR_OOB;
+                if (table_rel_offset > ctx->program->bytecode_len - code_start_ip) return CND_ERR_OOB;
+                size_t table_start_ip = code_start_ip + table_rel_offset;
                 
                 // Jump to table to read it
                 size_t original_ip = ctx->ip;
@@ -1401,11 +1401,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
                 size_t code_start_ip = ctx->ip;
-                size_t table_start_ip = code_start_ip + table_rel_offset;
+                size_t left = ctx->program->bytecode_len - code_start_ip;
                 
                 // Check if table start is valid and if we can read the header (20 bytes)
-                if (table_start_ip > ctx->program->bytecode_len || 
-                    table_start_ip + 20 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                if (table_rel_offset > left || left - table_rel_offset < 20) return CND_ERR_OOB;
+                size_t table_start_ip = code_start_ip + table_rel_offset;
                 
                 // Jump to table
                 size_t original_ip = ctx->ip;
-- 
2.43.0


From b33249fc4c6fcb5d4c0b9bf9617f47500d9bc220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:54 +0000
Subject: [PATCH 47/47] fix: JSON binding tells apart fields of one name that
 branches declare with other types

---
 src/cli/json_binding.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 76c2817..5eb04fe 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -126,30 +126,38 @@ static cJSON* find_value(IOCtx* io, const char* name) {
     return NULL;
 }
 
-// Whether a field holds a floating point value, which expressions see as its bits
-static bool is_float_key(IOCtx* io, uint16_t key_id) {
+// Whether a field holds a floating point value, which expressions see as its bits. Branches
+// may declare the same name with other types: the last declaration before ip is the one meant
+static bool is_float_key(IOCtx* io, uint16_t key_id, size_t ip) {
     cnd_il_walker w;
     size_t at, size;
     bool scaled = false;
+    bool found = false;
+    bool is_float = false;
     const uint8_t* bc = io->program->bytecode;
     cnd_il_walk(&w, bc, io->program->bytecode_len);
     while (cnd_il_next(&w, &at, &size) == CND_ERR_OK && size > 0) {
         uint8_t op = bc[at];
+        if (found && at >= ip) break;
         if (op == OP_SCALE_LIN || op == OP_TRANS_POLY || op == OP_TRANS_SPLINE) {
             scaled = true;
             continue;
         }
         if ((op >= OP_IO_U8 && op <= OP_IO_BOOL) || op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL) {
-            if (read_u16(bc + at + 1, CND_LE) == key_id) return scaled || op == OP_IO_F32 || op == OP_IO_F64;
+            if (read_u16(bc + at + 1, CND_LE) == key_id) {
+                found = true;
+                is_float = scaled || op == OP_IO_F32 || op == OP_IO_F64;
+            }
             scaled = false;
         } else if (op == OP_STORE_CTX && read_u16(bc + at + 1, CND_LE) == key_id) {
             if (cnd_il_next(&w, &at, &size) == CND_ERR_OK && size > 0 && bc[at] == OP_MARK_OPTIONAL) {
-                if (cnd_il_next(&w, &at, &size) != CND_ERR_OK) return false;
+                if (cnd_il_next(&w, &at, &size) != CND_ERR_OK) break;
             }
-            return size > 1 && bc[at] == OP_EMIT && (bc[at + 1] == OP_IO_F32 || bc[at + 1] == OP_IO_F64);
+            found = true;
+            is_float = size > 1 && bc[at] == OP_EMIT && (bc[at + 1] == OP_IO_F32 || bc[at + 1] == OP_IO_F64);
         }
     }
-    return false;
+    return is_float;
 }
 
 // The scalar type of the computed field whose value was just stored
@@ -434,7 +442,7 @@ cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, voi
     if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) {
         cJSON* item = find_value(io, key_name_full);
         bool ok;
-        if (type == OP_LOAD_CTX && is_float_key(io, key_id)) {
+        if (type == OP_LOAD_CTX && is_float_key(io, key_id, ctx->ip)) {
             double d = 0.0;
             ok = json_number(item, &d);
             memcpy(ptr, &d, sizeof(d));
-- 
2.43.0

