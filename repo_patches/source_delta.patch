From 37ada91d0749d86906218be0d2b1c484bd8b3ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 01/93] fix: evaluate constant expressions with the types and
 values C defines

---
 constexpr.c | 287 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 170 insertions(+), 117 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0182a4c..5397250 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -4,7 +4,8 @@
 
 #include "wcc.h"
 
-static int integers_are_longs;
+static int integers_are_longs; // All integers are longs, used in the preprocessor
+static int unevaluated;        // Set when parsing an operand that isn't evaluated
 
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
@@ -14,122 +15,149 @@ static Value *indirect(Value *value) {
     return value;
 }
 
-Value *evaluate_const_unary_int_operation(int operation, Value *value) {
-    long r;
+// Truncate and sign/zero extend an integer to a type
+static long convert_integer(long value, Type *type) {
+         if (type->type == TYPE_CHAR  && !type->is_unsigned) return (         char ) value;
+    else if (type->type == TYPE_CHAR  &&  type->is_unsigned) return (unsigned char ) value;
+    else if (type->type == TYPE_SHORT && !type->is_unsigned) return (         short) value;
+    else if (type->type == TYPE_SHORT &&  type->is_unsigned) return (unsigned short) value;
+    else if (type->type == TYPE_INT   && !type->is_unsigned) return (         int  ) value;
+    else if (type->type == TYPE_INT   &&  type->is_unsigned) return (unsigned int  ) value;
+    else if (type->type == TYPE_ENUM)                        return (         int  ) value;
+    else                                                     return                  value;
+}
 
-         if (operation == IR_BNOT) r = ~value->int_value;
-    else if (operation == IR_LNOT) r = !value->int_value;
-    else if (operation == IR_ADD)  r = +value->int_value;
-    else if (operation == IR_SUB)  r = -value->int_value;
-    else return 0;
+// Round a floating point value to the precision of a type
+static long double convert_floating_point(long double value, Type *type) {
+         if (type->type == TYPE_FLOAT)  return (float) value;
+    else if (type->type == TYPE_DOUBLE) return (double) value;
+    else                                return value;
+}
 
-    // Perform integer promotions everywhere except for logical not,
+static Value *new_const_int_value(Type *type, long value) {
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : integer_promote_type(value->type);
-    v->type->is_unsigned = value->type->is_unsigned;
+    v->type = dup_type(type);
     v->is_constant = 1;
-    v->int_value = r;
+    v->int_value = convert_integer(value, type);
+    return v;
+}
 
+static Value *new_const_fp_value(Type *type, long double value) {
+    Value *v = new_value();
+    v->type = dup_type(type);
+    v->is_constant = 1;
+    v->fp_value = convert_floating_point(value, type);
     return v;
 }
 
-Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
-    int is_int;
-    unsigned int i;
-    long double ld;
+// The value of an arithmetic constant as a floating point number
+static long double get_const_fp_value(Value *value) {
+    if (is_floating_point_type(value->type)) return value->fp_value;
+    if (value->type->is_unsigned) return (unsigned long) value->int_value;
+    return value->int_value;
+}
+
+static int is_const_true(Value *value) {
+    if (is_floating_point_type(value->type)) return value->fp_value != 0;
+    return value->int_value != 0;
+}
 
-         if (operation == IR_LNOT) { is_int = 1; i = !value->fp_value; }
-    else if (operation == IR_ADD)  { is_int = 0; ld = +value->fp_value; }
-    else if (operation == IR_SUB)  { is_int = 0; ld = -value->fp_value; }
+// The type of comparisons and logical operations: int, except in the preprocessor, which only has longs
+static Type *boolean_type(void) {
+    return new_type(integers_are_longs ? TYPE_LONG : TYPE_INT);
+}
+
+Value *evaluate_const_unary_int_operation(int operation, Value *value) {
+    if (operation == IR_LNOT) return new_const_int_value(boolean_type(), !value->int_value);
+
+    Type *type = integer_promote_type(value->type);
+
+         if (operation == IR_BNOT) return new_const_int_value(type, ~value->int_value);
+    else if (operation == IR_ADD)  return new_const_int_value(type, value->int_value);
+    else if (operation == IR_SUB)  return new_const_int_value(type, -(unsigned long) value->int_value);
     else return 0;
+}
 
-    // Perform integer promotions everywhere except for logical not,
-    Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : value->type;
-    v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
+Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
+         if (operation == IR_LNOT) return new_const_int_value(boolean_type(), !is_const_true(value));
+    else if (operation == IR_ADD)  return new_const_fp_value(value->type, value->fp_value);
+    else if (operation == IR_SUB)  return new_const_fp_value(value->type, -value->fp_value);
+    else return 0;
+}
 
-    return v;
+// Can the value of an operation on constants be determined?
+int is_const_operation_defined(int operation, Value *src1, Value *src2) {
+    if (operation != IR_DIV && operation != IR_MOD) return 1;
+    if (is_floating_point_type(src1->type) || is_floating_point_type(src2->type)) return 1;
+    return src2->int_value != 0;
 }
 
 Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2) {
-    int is_unsigned = src1->type->is_unsigned;
-    int is_long = src1->type->type == TYPE_LONG || src2->type->type == TYPE_LONG;
-
-    int ui =  is_unsigned && !is_long;
-    int ul =  is_unsigned &&  is_long;
-    int si = !is_unsigned && !is_long;
-    int sl = !is_unsigned &&  is_long;
-
-    unsigned int  s1ui = (unsigned int)  src1->int_value;
-    unsigned long s1ul = (unsigned long) src1->int_value;
-    int           s1si = (int)           src1->int_value;
-    long          s1sl = (long)          src1->int_value;
-
-    unsigned int  s2ui = (unsigned int)  src2->int_value;
-    unsigned long s2ul = (unsigned long) src2->int_value;
-    int           s2si = (int)           src2->int_value;
-    long          s2sl = (long)          src2->int_value;
-
-    unsigned long r = 0;
-
-    int divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
-    if (operation == IR_DIV && divisor == 0) error("Division by zero");
-    if (operation == IR_MOD && divisor == 0) error("Modulus by zero");
-
-         if (operation == IR_ADD ) { if (ui) r = s1ui +  s2ui; else if (ul) r = s1ul +  s2ul; else if (si) r = s1si +  s2si; else if (sl) r = s1sl +  s2sl; }
-    else if (operation == IR_SUB ) { if (ui) r = s1ui -  s2ui; else if (ul) r = s1ul -  s2ul; else if (si) r = s1si -  s2si; else if (sl) r = s1sl -  s2sl; }
-    else if (operation == IR_MUL ) { if (ui) r = s1ui *  s2ui; else if (ul) r = s1ul *  s2ul; else if (si) r = s1si *  s2si; else if (sl) r = s1sl *  s2sl; }
-    else if (operation == IR_DIV ) { if (ui) r = s1ui /  s2ui; else if (ul) r = s1ul /  s2ul; else if (si) r = s1si /  s2si; else if (sl) r = s1sl /  s2sl; }
-    else if (operation == IR_MOD ) { if (ui) r = s1ui %  s2ui; else if (ul) r = s1ul %  s2ul; else if (si) r = s1si %  s2si; else if (sl) r = s1sl %  s2sl; }
-    else if (operation == IR_LAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl && s2sl; }
-    else if (operation == IR_LOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl || s2sl; }
-    else if (operation == IR_BAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul &  s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl &  s2sl; }
-    else if (operation == IR_BOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul |  s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl |  s2sl; }
-    else if (operation == IR_XOR ) { if (ui) r = s1ui ^  s2ui; else if (ul) r = s1ul ^  s2ul; else if (si) r = s1si ^  s2si; else if (sl) r = s1sl ^  s2sl; }
-    else if (operation == IR_BSHL) { if (ui) r = s1ui << s2ui; else if (ul) r = s1ul << s2ul; else if (si) r = s1si << s2si; else if (sl) r = s1sl << s2sl; }
-    else if (operation == IR_BSHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_ASHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_EQ  ) { if (ui) r = s1ui == s2ui; else if (ul) r = s1ul == s2ul; else if (si) r = s1si == s2si; else if (sl) r = s1sl == s2sl; }
-    else if (operation == IR_NE  ) { if (ui) r = s1ui != s2ui; else if (ul) r = s1ul != s2ul; else if (si) r = s1si != s2si; else if (sl) r = s1sl != s2sl; }
-    else if (operation == IR_LT  ) { if (ui) r = s1ui <  s2ui; else if (ul) r = s1ul <  s2ul; else if (si) r = s1si <  s2si; else if (sl) r = s1sl <  s2sl; }
-    else if (operation == IR_GT  ) { if (ui) r = s1ui >  s2ui; else if (ul) r = s1ul >  s2ul; else if (si) r = s1si >  s2si; else if (sl) r = s1sl >  s2sl; }
-    else if (operation == IR_LE  ) { if (ui) r = s1ui <= s2ui; else if (ul) r = s1ul <= s2ul; else if (si) r = s1si <= s2si; else if (sl) r = s1sl <= s2sl; }
-    else if (operation == IR_GE  ) { if (ui) r = s1ui >= s2ui; else if (ul) r = s1ul >= s2ul; else if (si) r = s1si >= s2si; else if (sl) r = s1sl >= s2sl; }
+    // Logical operations don't convert their operands
+    if (operation == IR_LAND) return new_const_int_value(boolean_type(), is_const_true(src1) && is_const_true(src2));
+    if (operation == IR_LOR)  return new_const_int_value(boolean_type(), is_const_true(src1) || is_const_true(src2));
+
+    // The operands of a shift are promoted separately, the others are converted to a common type
+    Type *type;
+    if ((operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR) && is_integer_type(src1->type))
+        type = integer_promote_type(src1->type);
+    else
+        type = operation_type(src1, src2, 0);
+
+    int is_unsigned = type->is_unsigned || !is_integer_type(type);
+    int bits_mask = type->type == TYPE_INT ? 31 : 63;
+
+    long s1 = convert_integer(src1->int_value, type);
+    long s2 = convert_integer(src2->int_value, type);
+    unsigned long u1 = s1;
+    unsigned long u2 = s2;
+    int count = src2->int_value & bits_mask;
+
+    if (operation == IR_DIV && s2 == 0) error("Division by zero");
+    if (operation == IR_MOD && s2 == 0) error("Modulus by zero");
+
+    unsigned long r;
+
+         if (operation == IR_ADD ) r = u1 + u2;
+    else if (operation == IR_SUB ) r = u1 - u2;
+    else if (operation == IR_MUL ) r = u1 * u2;
+    else if (operation == IR_DIV ) { if (is_unsigned) r = u1 / u2; else if (s2 == -1) r = -u1; else r = s1 / s2; }
+    else if (operation == IR_MOD ) { if (is_unsigned) r = u1 % u2; else if (s2 == -1) r = 0;   else r = s1 % s2; }
+    else if (operation == IR_BAND) r = u1 & u2;
+    else if (operation == IR_BOR ) r = u1 | u2;
+    else if (operation == IR_XOR ) r = u1 ^ u2;
+    else if (operation == IR_BSHL) r = u1 << count;
+    else if (operation == IR_BSHR) { if (is_unsigned) r = u1 >> count; else r = s1 >> count; }
+    else if (operation == IR_ASHR) { if (is_unsigned) r = u1 >> count; else r = s1 >> count; }
+    else if (operation == IR_EQ  ) return new_const_int_value(boolean_type(), u1 == u2);
+    else if (operation == IR_NE  ) return new_const_int_value(boolean_type(), u1 != u2);
+    else if (operation == IR_LT  ) return new_const_int_value(boolean_type(), is_unsigned ? u1 <  u2 : s1 <  s2);
+    else if (operation == IR_GT  ) return new_const_int_value(boolean_type(), is_unsigned ? u1 >  u2 : s1 >  s2);
+    else if (operation == IR_LE  ) return new_const_int_value(boolean_type(), is_unsigned ? u1 <= u2 : s1 <= s2);
+    else if (operation == IR_GE  ) return new_const_int_value(boolean_type(), is_unsigned ? u1 >= u2 : s1 >= s2);
     else return 0;
 
-    Value *v = new_value();
-    v->type = operation_type(src1, src2, 0);
-    v->type->is_unsigned = is_unsigned;
-    v->is_constant = 1;
-    v->int_value = r;
-
-    return v;
+    return new_const_int_value(type, r);
 }
 
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
-    int is_int;
-    unsigned int i;
-    long double ld;
-
-         if (operation == IR_ADD) { is_int = 0; ld = src1->fp_value +  src2->fp_value; }
-    else if (operation == IR_SUB) { is_int = 0; ld = src1->fp_value -  src2->fp_value; }
-    else if (operation == IR_MUL) { is_int = 0; ld = src1->fp_value *  src2->fp_value; }
-    else if (operation == IR_DIV) { is_int = 0; ld = src1->fp_value /  src2->fp_value; }
-    else if (operation == IR_EQ ) { is_int = 1; i =  src1->fp_value == src2->fp_value; }
-    else if (operation == IR_NE ) { is_int = 1; i =  src1->fp_value != src2->fp_value; }
-    else if (operation == IR_LT ) { is_int = 1; i =  src1->fp_value <  src2->fp_value; }
-    else if (operation == IR_GT ) { is_int = 1; i =  src1->fp_value >  src2->fp_value; }
-    else if (operation == IR_LE ) { is_int = 1; i =  src1->fp_value <= src2->fp_value; }
-    else if (operation == IR_GE ) { is_int = 1; i =  src1->fp_value >= src2->fp_value; }
+    // Convert operands to the common type
+    long double s1 = convert_floating_point(get_const_fp_value(src1), type);
+    long double s2 = convert_floating_point(get_const_fp_value(src2), type);
+
+         if (operation == IR_ADD ) return new_const_fp_value(type, s1 + s2);
+    else if (operation == IR_SUB ) return new_const_fp_value(type, s1 - s2);
+    else if (operation == IR_MUL ) return new_const_fp_value(type, s1 * s2);
+    else if (operation == IR_DIV ) return new_const_fp_value(type, s1 / s2);
+    else if (operation == IR_LAND) return new_const_int_value(boolean_type(), is_const_true(src1) && is_const_true(src2));
+    else if (operation == IR_LOR ) return new_const_int_value(boolean_type(), is_const_true(src1) || is_const_true(src2));
+    else if (operation == IR_EQ  ) return new_const_int_value(boolean_type(), s1 == s2);
+    else if (operation == IR_NE  ) return new_const_int_value(boolean_type(), s1 != s2);
+    else if (operation == IR_LT  ) return new_const_int_value(boolean_type(), s1 <  s2);
+    else if (operation == IR_GT  ) return new_const_int_value(boolean_type(), s1 >  s2);
+    else if (operation == IR_LE  ) return new_const_int_value(boolean_type(), s1 <= s2);
+    else if (operation == IR_GE  ) return new_const_int_value(boolean_type(), s1 >= s2);
     else return 0;
-
-    Value *v = new_value();
-    v->type = is_int ? new_type(TYPE_INT) : type;
-    v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
-
-    return v;
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
@@ -148,15 +176,17 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
-    // Don't bother changing precision
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
-        dst->fp_value = src->fp_value;
+        dst->fp_value = convert_floating_point(src->fp_value, dst_type);
         return dst;
     }
 
     // FP -> integer
     if (is_floating_point_type(src_type) && !is_floating_point_type(dst_type)) {
-        dst->int_value = src->fp_value;
+        if (dst_type->type == TYPE_LONG && dst_type->is_unsigned)
+            dst->int_value = (unsigned long) src->fp_value;
+        else
+            dst->int_value = src->fp_value;
 
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
@@ -172,26 +202,19 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
              if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value < -0x7fffffff) dst->int_value = -0x80000000;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value < -0xffffffff) dst->int_value = 0;
 
+        dst->int_value = convert_integer(dst->int_value, dst_type);
         return dst;
     }
 
     // Integer -> FP
-    if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type)) {
-        if (src_type->is_unsigned) dst->fp_value = (unsigned long) src->int_value;
-        else dst->fp_value = src->int_value;
-    }
+    if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type))
+        dst->fp_value = convert_floating_point(get_const_fp_value(src), dst_type);
 
     // Implicit else: integer -> integer
     // int_value is already sign extended to a long, so this doesn't have to be done again.
     // The only thing that needs doing is truncation to the target type, if it's smaller
     // than a long.
-         if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned) dst->int_value = (         char ) src->int_value;
-    else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned) dst->int_value = (unsigned char ) src->int_value;
-    else if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned) dst->int_value = (         short) src->int_value;
-    else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned) dst->int_value = (unsigned short) src->int_value;
-    else if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned) dst->int_value = (         int  ) src->int_value;
-    else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned) dst->int_value = (unsigned int  ) src->int_value;
-    else                                                             dst->int_value =                  src->int_value;
+    dst->int_value = convert_integer(src->int_value, dst_type);
 
     return dst;
 }
@@ -216,7 +239,7 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
     Value *result;
 
     if (operation == IR_ADD) {
-        int arithmetic_value;
+        long arithmetic_value;
         if (is_pointer_type(value1->type)) {
             result = dup_value(value1);
             arithmetic_value = value2->int_value;
@@ -226,7 +249,7 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
             arithmetic_value = value1->int_value;
         }
 
-        int size = arithmetic_value * get_type_size(result->type->target);
+        long size = arithmetic_value * get_type_size(result->type->target);
 
         if (result->is_address_of || result->is_string_literal)
             result->address_of_offset += size;
@@ -241,13 +264,13 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
             if (value1->global_symbol != value2->global_symbol)
                 error("Operand mismatch in constant pointer subtraction");
 
-            int difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
+            long difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
             result = new_integral_constant(TYPE_LONG, difference / size);
 
         }
         else {
             result = dup_value(value1);
-            int size =  value2->int_value * get_type_size(result->type->target);
+            long size =  value2->int_value * get_type_size(result->type->target);
             if (result->is_address_of || result->is_string_literal)
                 result->address_of_offset -= size;
             else
@@ -260,14 +283,25 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
 
 static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
     next();
+
+    // The right hand side of && and || isn't evaluated if the left hand side determines the result
+    int short_circuit =
+        operation == IR_LAND && value1->is_constant && !is_const_true(value1) ||
+        operation == IR_LOR  && value1->is_constant &&  is_const_true(value1);
+
+    unevaluated += short_circuit;
     Value *value2 = parse_constant_expression(second_level);
+    unevaluated -= short_circuit;
+
     check_binary_operation_types(operation, value1, value2);
 
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
         return parse_address_plus_minus(operation, value1, value2);
 
     Type *result_type = operation_type(value1, value2, 0);
-    if (is_floating_point_type(result_type))
+    if (unevaluated && !is_const_operation_defined(operation, value1, value2))
+        return new_const_int_value(result_type, 0);
+    else if (is_floating_point_type(result_type))
         return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
     else
         return evaluate_const_binary_int_operation(operation, value1, value2);
@@ -275,12 +309,27 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
 
 static Value *parse_ternary(Value *value) {
     next();
-    int which = is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+    int which = is_const_true(value);
+
+    unevaluated += !which;
     Value *value1 = parse_constant_expression(TOK_TERNARY);
+    unevaluated -= !which;
+
     consume(TOK_COLON, ":");
+
+    unevaluated += which;
     Value *value2 = parse_constant_expression(TOK_TERNARY);
+    unevaluated -= which;
+
     check_ternary_operation_types(value, value1, value2);
-    return which ? value1 : value2;
+
+    Value *result = which ? value1 : value2;
+
+    // Convert the result to the common type
+    if (is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
+        result = cast_constant_value(result, operation_type(value1, value2, 1));
+
+    return result;
 }
 
 // Parse a constant expression using top-down precedence climbing parsing
@@ -345,6 +394,7 @@ Value *parse_constant_expression(int level) {
 
         case TOK_INTEGER:
             value = new_integral_constant(integers_are_longs ? TYPE_LONG : cur_lexer_type->type, cur_long);
+            value->type->is_unsigned = cur_lexer_type->is_unsigned;
             next();
             break;
 
@@ -471,8 +521,11 @@ Value *parse_constant_expression(int level) {
 
 Value *parse_constant_integer_expression(int all_longs) {
     integers_are_longs = all_longs;
+    unevaluated = 0;
 
     Value *value = parse_constant_expression(TOK_EQ);
+    integers_are_longs = 0;
+
     if (!value->is_constant) error("Expected a constant expression");
     if (!is_integer_type(value->type)) error("Expected an integer constant expression");
     return value;
-- 
2.43.0


From b0a2c4211c2176b513bcabc41c214704e851e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 02/93] fix: don't simplify arithmetic operations where the
 result differs

---
 parser.c |  9 ++++++++-
 ssa.c    | 19 +++++++++----------
 wcc.h    |  1 +
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/parser.c b/parser.c
index 8a174ba..ceb1584 100644
--- a/parser.c
+++ b/parser.c
@@ -1375,7 +1375,14 @@ static void arithmetic_operation(int operation, Type *dst_type) {
         src2 = float_type_change(src2);
     }
 
-    add_ir_op(operation, dst_type, new_vreg(), src1, src2);
+    Tac *tac = add_ir_op(operation, dst_type, new_vreg(), src1, src2);
+
+    // The remainder of a negative number isn't a bitwise and
+    if (operation == IR_MOD && !src1->type->is_unsigned) tac->keep_operation = 1;
+
+    // A floating point number multiplied by zero isn't zero for negative numbers, infinities and NaNs
+    if (operation == IR_MUL && is_floating_point_type(common_type))
+        tac->keep_operation = (src1->is_constant && src1->fp_value == 0) || (src2->is_constant && src2->fp_value == 0);
 }
 
 void check_plus_operation_type(Value *src1, Value *src2, int for_array_subscript) {
diff --git a/ssa.c b/ssa.c
index bff1449..bc7c8e6 100644
--- a/ssa.c
+++ b/ssa.c
@@ -51,7 +51,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHL;
@@ -67,7 +67,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if (tac->src1->type->is_unsigned && (c & (c - 1)) == 0) {
+        else if (tac->src1->type->is_unsigned && c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHR;
@@ -83,12 +83,12 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
-            l = 0;
-            while (c > 1) { c = c >> 1; l = (l << 1) | 1; }
+        else if (c > 0 && (c & (c - 1)) == 0) {
+            l = c - 1;
             tac->operation = IR_BAND;
             tac->src1 = v;
-            tac->src2 = new_integral_constant(TYPE_INT, l);
+            tac->src2 = new_integral_constant(v->type->type, l);
+            tac->src2->type->is_unsigned = v->type->is_unsigned;
         }
     }
 }
@@ -124,10 +124,7 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     else if (tac->operation == IR_DIV && cv && tac->src2->is_constant) {
         c = tac->src2->fp_value;
 
-        if (c == 0.0L)
-            panic("Division by zero");
-
-        else if (c == 1.0L) {
+        if (c == 1.0L) {
             tac->operation = IR_MOVE;
             tac->src1 = v;
             tac->src2 = 0;
@@ -139,6 +136,8 @@ void optimize_arithmetic_operations(Function *function) {
     if (!opt_optimize_arithmetic_operations) return;
 
     for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->keep_operation) continue;
+
         Type *src1_type = tac->src1 && tac->src1->is_constant ? tac->src1->type : 0;
         Type *src2_type = tac->src2 && tac->src2->is_constant ? tac->src2->type : 0;
 
diff --git a/wcc.h b/wcc.h
index 0f5649c..5ada3fa 100644
--- a/wcc.h
+++ b/wcc.h
@@ -353,6 +353,7 @@ typedef struct three_address_code {
     struct three_address_code *next;    // Next in a linked-list
     struct three_address_code *prev;    // Previous in a linked-list
     char *x86_template;                 // Template for rendering x86 instruction
+    int keep_operation;                 // An arithmetic simplification would change the result
     Origin *origin;                     // Filename and line numberwhere the tac was created
 } Tac;
 
-- 
2.43.0


From cd96004f3cb2da42765df1558c4f3514cd2cbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 03/93] fix: use the operand size in comparisons of memory with
 zero

---
 codegen.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/codegen.c b/codegen.c
index 762175f..ec9caaa 100644
--- a/codegen.c
+++ b/codegen.c
@@ -433,7 +433,20 @@ char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
     return result;
 }
 
+// A comparison of memory with zero needs an explicit operand size
+static void add_compare_with_zero_size(Tac *tac) {
+    if (tac->operation != X_CMPZ || memcmp(tac->x86_template, "cmp $0, ", 8)) return;
+
+    int size = is_integer_type(tac->src1->type) ? get_type_size(tac->src1->type) : 8;
+
+         if (size == 1) tac->x86_template = "cmpb $0, %v1b";
+    else if (size == 2) tac->x86_template = "cmpw $0, %v1w";
+    else if (size == 4) tac->x86_template = "cmpl $0, %v1l";
+    else                tac->x86_template = "cmpq $0, %v1q";
+}
+
 static void output_x86_operation(Tac *tac, int function_pc) {
+    add_compare_with_zero_size(tac);
     char *buffer = render_x86_operation(tac, function_pc, 1);
     if (buffer) {
         fprintf(f, "    %s\n", buffer);
-- 
2.43.0


From 453460d37a952aa30a856a583d5611b3b3c700fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 04/93] fix: unsigned constants of 0x10000 and higher don't fit
 in a short

---
 instrutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrutil.c b/instrutil.c
index 6277450..da09092 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -379,7 +379,7 @@ int match_value_to_rule_src(Value *v, int src) {
             else if (              src == CI4 && !v->type->is_unsigned)                                                               return 1;
 
             else if (src >= CU1 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100      ) return 1;
-            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000   ) return 1;
+            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x10000    ) return 1;
             else if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000000) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                                                    return 1;
 
-- 
2.43.0


From 670e3850d2367493fcb0e88f1e5bf75da63831c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 05/93] fix: keep the type of integer operations merged by
 instruction selection

---
 constexpr.c |  2 +-
 instrsel.c  | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 5397250..d860dc7 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -161,7 +161,7 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
-    if (types_are_compatible(src->type, dst_type)) return src;
+    if (types_are_compatible(src->type, dst_type) && src->type->is_unsigned == dst_type->is_unsigned) return src;
 
     Type *src_type = src->type;
 
diff --git a/instrsel.c b/instrsel.c
index c73ff10..8e9c874 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -604,10 +604,9 @@ static Value *merge_cst_node(IGraph *igraph, int node_id, Value *v) {
     return v;
 }
 
-static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_value, int is_unsigned) {
+static Value *merge_cst_int_node(IGraph *igraph, int node_id, Type *type, long constant_value) {
     Value *v = new_value();
-    v->type = new_type(TYPE_LONG);
-    v->type->is_unsigned = is_unsigned;
+    v->type = dup_type(type);
     v->is_constant = 1;
     v->int_value = constant_value;
     return merge_cst_node(igraph, node_id, v);
@@ -627,7 +626,7 @@ static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation
     if (!value)
         return 0;
     else
-        return merge_cst_int_node(igraph, node_id, value->int_value, value->type->is_unsigned);
+        return merge_cst_int_node(igraph, node_id, value->type, value->int_value);
 }
 
 static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2, Type *type) {
@@ -636,9 +635,9 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     if (!value)
         return 0;
     else if (is_floating_point_type(value->type))
-        merge_cst_fp_node(igraph, node_id, type, value->fp_value);
+        return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value->type, value->int_value);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
@@ -664,7 +663,10 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     if (!src1 || !cst1) return 0;
 
     // Unary operations
-    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, ~src1->int_value, src1->type->is_unsigned);
+    if (operation == IR_BNOT) {
+        Value *value = evaluate_const_unary_int_operation(operation, src1);
+        return merge_cst_int_node(igraph, node_id, value->type, value->int_value);
+    }
 
     // Binary operations
     int cst2 = cst1 && (src2 && src2->is_constant);
-- 
2.43.0


From d1403bbaee529828a6526604515da3f2db316a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 06/93] fix: round floating point constants to their type

---
 constexpr.c | 27 +++++++++++++++++++++++----
 lexer.c     |  7 ++++++-
 parser.c    | 27 ++++++++++-----------------
 wcc.h       |  1 +
 4 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index d860dc7..8045f0e 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -28,7 +28,7 @@ static long convert_integer(long value, Type *type) {
 }
 
 // Round a floating point value to the precision of a type
-static long double convert_floating_point(long double value, Type *type) {
+long double convert_floating_point(long double value, Type *type) {
          if (type->type == TYPE_FLOAT)  return (float) value;
     else if (type->type == TYPE_DOUBLE) return (double) value;
     else                                return value;
@@ -145,6 +145,25 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     long double s1 = convert_floating_point(get_const_fp_value(src1), type);
     long double s2 = convert_floating_point(get_const_fp_value(src2), type);
 
+    // Do the arithmetic in the type of the operation, so that the result is only rounded once.
+    if (type->type == TYPE_FLOAT) {
+        float f1 = s1;
+        float f2 = s2;
+             if (operation == IR_ADD ) return new_const_fp_value(type, f1 + f2);
+        else if (operation == IR_SUB ) return new_const_fp_value(type, f1 - f2);
+        else if (operation == IR_MUL ) return new_const_fp_value(type, f1 * f2);
+        else if (operation == IR_DIV ) return new_const_fp_value(type, f1 / f2);
+    }
+
+    if (type->type == TYPE_DOUBLE) {
+        double d1 = s1;
+        double d2 = s2;
+             if (operation == IR_ADD ) return new_const_fp_value(type, d1 + d2);
+        else if (operation == IR_SUB ) return new_const_fp_value(type, d1 - d2);
+        else if (operation == IR_MUL ) return new_const_fp_value(type, d1 * d2);
+        else if (operation == IR_DIV ) return new_const_fp_value(type, d1 / d2);
+    }
+
          if (operation == IR_ADD ) return new_const_fp_value(type, s1 + s2);
     else if (operation == IR_SUB ) return new_const_fp_value(type, s1 - s2);
     else if (operation == IR_MUL ) return new_const_fp_value(type, s1 * s2);
@@ -191,15 +210,15 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0xff;
-             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <       -0x7f) dst->int_value = -0x80;
+             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <=      -0x81) dst->int_value = -0x80;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value <       -0xff) dst->int_value = 0;
              if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0x7fff;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0xffff;
-             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <     -0x7fff) dst->int_value = -0x8000;
+             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <=    -0x8001) dst->int_value = -0x8000;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value <     -0xffff) dst->int_value = 0;
              if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0x7fffffff;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0xffffffff;
-             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value < -0x7fffffff) dst->int_value = -0x80000000;
+             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value <= -0x80000001l) dst->int_value = -0x80000000;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value < -0xffffffff) dst->int_value = 0;
 
         dst->int_value = convert_integer(dst->int_value, dst_type);
diff --git a/lexer.c b/lexer.c
index d0c3fb8..412985e 100644
--- a/lexer.c
+++ b/lexer.c
@@ -149,8 +149,9 @@ void lex_non_hex_literal(void) {
         finish_integer_constant(1);
     }
     else {
+        char *literal = start + start_ip;
         char *new_i;
-        cur_long_double = strtold(start + start_ip, &new_i);
+        cur_long_double = strtold(literal, &new_i);
         ip = start_ip + new_i - start - start_ip;
 
         cur_token = TOK_FLOATING_POINT_NUMBER;
@@ -159,6 +160,10 @@ void lex_non_hex_literal(void) {
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
         if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
 
+        // The value must be representable in the type
+        if (type == TYPE_FLOAT) cur_long_double = strtof(literal, 0);
+        else if (type == TYPE_DOUBLE) cur_long_double = strtod(literal, 0);
+
         cur_lexer_type = new_type(type);
     }
 }
diff --git a/parser.c b/parser.c
index ceb1584..33c9046 100644
--- a/parser.c
+++ b/parser.c
@@ -1214,9 +1214,9 @@ Value *convert_int_constant_to_floating_point(Value *v, Type *dst_type) {
     result->is_constant = 1;
 
     if (v->type->is_unsigned)
-        result->fp_value = (unsigned long) v->int_value;
+        result->fp_value = convert_floating_point((unsigned long) v->int_value, dst_type);
     else
-        result->fp_value = v->int_value;
+        result->fp_value = convert_floating_point(v->int_value, dst_type);
 
     return result;
 }
@@ -1609,28 +1609,19 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
             int src_is_ld = src->type->type == TYPE_LONG_DOUBLE;
             int dst_is_ld = dst_type->type == TYPE_LONG_DOUBLE;
 
-            if ((src_is_sse && dst_is_ld) || (dst_is_sse && src_is_ld)) {
-                // Type change for float/double <-> long double
-                Value *src2 = dup_value(src);
-                src2->type = dup_type(dst_type);
-                return src2;
-            }
+            if ((src_is_sse || src_is_ld) && (dst_is_sse || dst_is_ld))
+                // Convert floating point -> floating point, rounding the value
+                return cast_constant_value(src, dst_type);
             else if ((src_is_sse || src_is_ld) && dst_is_int) {
                 // Convert floating point -> int
                 Value *src2 = new_value();
                 src2->type = new_type(dst_type->type <= TYPE_INT ? TYPE_INT : TYPE_LONG);
                 src2->is_constant = 1;
-                src2->int_value = src->fp_value;
+                src2->int_value = cast_constant_value(src, dst_type)->int_value;
                 return src2;
             }
             else if (src_is_int && (dst_is_sse || dst_is_ld))
                 return convert_int_constant_to_floating_point(src, dst_type);
-            else if (src_is_sse && dst_is_sse && src->type->type != dst_type->type) {
-                // Convert float -> double or double -> float
-                Value *src2 = dup_value(src);
-                src2->type = dup_type(dst_type);
-                return src2;
-            }
 
             // No change
             return src;
@@ -2601,8 +2592,10 @@ static void parse_expression(int level) {
             parse_expression(TOK_INC);
             check_unary_operation_type(IR_LNOT, vtop());
 
-            if (vtop()->is_constant)
-                push_integral_constant(TYPE_INT, !pop()->int_value);
+            if (vtop()->is_constant) {
+                Value *value = pop();
+                push_integral_constant(TYPE_INT, is_floating_point_type(value->type) ? value->fp_value == 0 : !value->int_value);
+            }
             else {
                 push_integral_constant(TYPE_INT, 0);
                 arithmetic_operation(IR_EQ, new_type(TYPE_INT));
diff --git a/wcc.h b/wcc.h
index 5ada3fa..f3caf99 100644
--- a/wcc.h
+++ b/wcc.h
@@ -988,6 +988,7 @@ void free_parser(void);
 // constexpr.c
 Value* evaluate_const_unary_int_operation(int operation, Value *value);
 Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2);
+long double convert_floating_point(long double value, Type *type);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
 Value *parse_constant_expression(int level);
-- 
2.43.0


From ba8561fdd6fc57f51342d39700bf538a03fe19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 07/93] fix: conversions between integers and floating point
 numbers

---
 instrrules.c | 92 ++++++++++++++++++++++++++++++++++++++--------------
 ssa.c        |  4 +--
 2 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 221e446..4362e57 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -367,7 +367,7 @@ static void add_integer_long_double_move_rule(int src, int type, char *extend_te
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 6);
     add_allocate_stack_index_in_slot(r, 1, type);               // Allocate stack entry and put it in SV1
     if (extend_template)
-        add_op(r, X_MOVC, 0,   SRC1, SV1, extend_template);    // Sign extend register if needed
+        add_op(r, X_MOVC, SRC1, SRC1, 0,  extend_template);    // Extend the register if needed
 
     add_op(r, X_MOVC, 0,   SRC1, SV1,    mov_template);           // Move register to stack
     add_op(r, X_MOVC, 0,   0,    SV1,    load_template);          // Load floating point from stack
@@ -443,6 +443,40 @@ static void add_sse_on_stack_to_int_in_register_move_rule(int dst, int src, int
     fin_rule(r);
 }
 
+// Conversion of floats and doubles to unsigned ints and unsigned longs
+static void add_sse_to_unsigned_move_rules(int src, int is_double) {
+    Rule *r;
+
+    char *mov = is_double ? "movsd %v1D, %%xmm14" : "movss %v1F, %%xmm14";
+    char *cvt = is_double ? "cvttsd2siq %%xmm14, %vdq" : "cvttss2siq %%xmm14, %vdq";
+
+    // The value fits in a signed long
+    r = add_rule(RU3, IR_MOVE, src, 0, 1);
+    add_op(r, X_MOVC, 0,   SRC1, 0, mov);
+    add_op(r, X_MOVC, DST, 0,    0, cvt);
+    fin_rule(r);
+
+    // Values from 2^63 aren't representable in a signed long. The conversion is also done
+    // with 2^63 subtracted & both results are combined if the first one is negative.
+    r = add_rule(RU4, IR_MOVE, src, 0, 1);
+    add_allocate_register_in_slot(r, 1, TYPE_LONG);
+    add_allocate_register_in_slot(r, 2, TYPE_LONG);
+    add_op(r, X_MOVC, 0,   SRC1, 0,   mov);
+    add_op(r, X_MOVC, SV1, 0,    0,   cvt);
+    add_op(r, X_MOVC, SV2, SV1,  0,   "movq %v1q, %vdq");
+    add_op(r, X_SHR,  SV2, SV2,  0,   "sarq $63, %v1q");
+    if (is_double) {
+        add_op(r, X_MOVC, 0, 0, 0, "cvtss2sd .LDTORU4(%%rip), %%xmm15");
+        add_op(r, X_MOVC, 0, 0, 0, "subsd %%xmm15, %%xmm14");
+    }
+    else
+        add_op(r, X_MOVC, 0, 0, 0, "subss .LDTORU4(%%rip), %%xmm14");
+    add_op(r, X_MOVC, DST, 0,    0,   cvt);
+    add_op(r, X_BAND, DST, SV2,  DST, "andq %v1q, %vdq");
+    add_op(r, X_BOR,  DST, SV1,  DST, "orq %v1q, %vdq");
+    fin_rule(r);
+}
+
 static void add_sse_in_register_to_long_double_move_rule(int src, int type, char *t1, char *t2) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 1);
     add_allocate_stack_index_in_slot(r, 1, type);
@@ -475,15 +509,17 @@ static void add_ulong_to_sse_operations(Rule *r, int dst, int src) {
     add_allocate_label_in_slot(r, 1);                               // Completion label
     add_allocate_label_in_slot(r, 2);                               // Signed case
     add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporary for unsigned case
+    add_allocate_register_in_slot(r, 4, TYPE_LONG);                 // Temporary for the lowest bit in the unsigned case
     add_op(r, X_TEST,  SRC1, SRC1,  0,    "testq %v1q, %v1q");
     add_op(r, X_JZ,    0,    SV2,   0,    "js %v1");                // Jump if unsigned
     add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);                      // Signed case
     add_op(r, X_JMP,   0,    SV1,   0,    "jmp %v1");
     add_op(r, X_MOVC,  SV3,  SRC1,  0,    ".L2:movq %v1q, %vdq");   // Unsigned case
     add_op(r, X_SHR,   SV3,  SV3,   0,    "shrq %v1q");
-    add_op(r, X_BAND,  SRC1, SRC1,  0,    "andl $1, %v1l");
-    add_op(r, X_BOR,   SV3,  SV3,   SRC1, "orq %v1q, %v2q");
-    add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);
+    add_op(r, X_MOVC,  SV4,  SRC1,  0,    "movq %v1q, %vdq");
+    add_op(r, X_BAND,  SV4,  SV4,   0,    "andl $1, %v1l");
+    add_op(r, X_BOR,   SV4,  SV3,   SV4,  "orq %v1q, %v2q");
+    add_op(r, X_MOVC,  DST,  SV4,   0,    t1);
     add_op(r, X_ADD,   DST,  DST,   DST,  t2);
     add_op(r, X_MOVC,  DST,  DST,   0,    ".L1:");                  // Done
 }
@@ -556,13 +592,13 @@ static void add_float_and_double_move_rules(void) {
     // SSE Constant -> integer in register
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
 
     // SSE Constant -> LD
     add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
@@ -571,24 +607,32 @@ static void add_float_and_double_move_rules(void) {
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+
+    // SSE -> unsigned int and unsigned long in register
+    add_sse_to_unsigned_move_rules(CS3, 0);
+    add_sse_to_unsigned_move_rules(CS4, 1);
+    add_sse_to_unsigned_move_rules(RS3, 0);
+    add_sse_to_unsigned_move_rules(RS4, 1);
+    add_sse_to_unsigned_move_rules(MS3, 0);
+    add_sse_to_unsigned_move_rules(MS4, 1);
 
     // SSE in register -> long double
     add_sse_in_register_to_long_double_move_rule(RS3, TYPE_FLOAT, "movss %v1F, %vdl", "flds %v1F");
@@ -631,15 +675,15 @@ static void add_long_double_move_rules(void)  {
     // Integer in register -> long double in memory
 
     // Signed integers
-    add_integer_long_double_move_rule(RI1, TYPE_CHAR , "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RI1, TYPE_SHORT, "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI2, TYPE_SHORT, 0,                   "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI3, TYPE_INT  , 0,                   "movl %v1l, %v2", "fildl %v2L");
     add_integer_long_double_move_rule(RI4, TYPE_LONG , 0,                   "movq %v1q, %v2", "fildq %v2L");
 
     // Unsigned integers
-    add_integer_long_double_move_rule(RU1, TYPE_CHAR , "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RU2, TYPE_SHORT, "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
-    add_integer_long_double_move_rule(RU3, TYPE_INT  , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
+    add_integer_long_double_move_rule(RU1, TYPE_SHORT, "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RU2, TYPE_INT  , "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
+    add_integer_long_double_move_rule(RU3, TYPE_LONG , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
 
     // RU4 is a special case
     // Inspired by clang, when run with -fPIE
@@ -647,12 +691,12 @@ static void add_long_double_move_rules(void)  {
     r = add_rule(MLD5, IR_MOVE, RU4, 0, 10);
     add_allocate_stack_index_in_slot(r, 1, TYPE_LONG);      // Allocate stack entry and put it in slot 1
     add_op(r, X_MOVC, 0,   SRC1, SV1,  "movq   %v1q, %v2");               // Move register to stack
-    add_op(r, X_MOVC, 0,   0,    0,    "movq   $0, %%r10");               // Zero r10
+    add_op(r, X_MOVC, 0,   0,    0,    "movq   $0, %%r11");               // Zero r11. r10 is used if SRC1 is spilled.
     add_op(r, X_MOVC, 0,   SRC1, 0,    "testq  %v1q, %v1q");              // Test & set flags
-    add_op(r, X_MOVC, DST, 0,    0,    "sets   %%r10b");                  // Store sign in r10 (0=unsigned, 1=signed)
+    add_op(r, X_MOVC, DST, 0,    0,    "sets   %%r11b");                  // Store sign in r11 (0=unsigned, 1=signed)
     add_op(r, X_MOVC, 0,   SRC2, SV1,  "fildq  %v2L");                    // Load floating point from stack
-    add_op(r, X_MOVC, 0,   0,    0,    "leaq   .RU4TOLD(%%rip), %%r11");  // Add constant, 0 for unsigned, something huge for signed
-    add_op(r, X_MOVC, 0,   0,    0,    "fadds  (%%r11,%%r10,4)");
+    add_op(r, X_MOVC, 0,   0,    0,    "leaq   .RU4TOLD(%%rip), %%r10");  // Add constant, 0 for unsigned, something huge for signed
+    add_op(r, X_MOVC, 0,   0,    0,    "fadds  (%%r10,%%r11,4)");
     add_op(r, X_MOVC, DST, 0,    0,    "fstpt  %vdL");                    // Store in dst
 
     // Integer -> long double rules
diff --git a/ssa.c b/ssa.c
index bc7c8e6..1dcbdf2 100644
--- a/ssa.c
+++ b/ssa.c
@@ -126,7 +126,6 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
 
         if (c == 1.0L) {
             tac->operation = IR_MOVE;
-            tac->src1 = v;
             tac->src2 = 0;
         }
     }
@@ -1470,8 +1469,7 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                         tac->operation == IR_MOVE ||
                         tac->operation == X_MOV ||
                         tac->operation == X_MOVZ ||
-                        tac->operation == X_MOVS ||
-                        tac->operation == X_MOVC
+                        tac->operation == X_MOVS
                        ) && tac->src1 && tac->src1->vreg && tac->src1->vreg == it_vreg) continue;
                     add_ig_edge(interference_graph, vreg_count, tac->dst->vreg, it_vreg);
                     if (debug_ssa_interference_graph) printf("added dst <-> lr %d <-> %d\n", tac->dst->vreg, it_vreg);
-- 
2.43.0


From 1339811b63d36a447adf341671103f787b46687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 08/93] fix: NUL-terminate the generated internals

---
 make-internals.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/make-internals.c b/make-internals.c
index f4b9621..b66b33d 100644
--- a/make-internals.c
+++ b/make-internals.c
@@ -11,8 +11,9 @@ int main() {
     if (!f) die("Opening internals.h");
 
     char *buffer = malloc(1024 * 1024);
-    int count = fread(buffer, 1024 * 1024, 1, f);
-    if (count < 0) die("Reading internals.h");
+    int count = fread(buffer, 1, 1024 * 1024 - 1, f);
+    if (count <= 0) die("Reading internals.h");
+    buffer[count] = 0;
 
     printf("char *internals(void) {\n");
     printf("    return \"");
-- 
2.43.0


From e0822fc7b953303b3aed5ab85b4d9d8f21350929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 09/93] fix: values of character constants and escapes

---
 lexer.c | 66 +++++++++++++++++++++++++--------------------------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/lexer.c b/lexer.c
index 412985e..7f8c9a2 100644
--- a/lexer.c
+++ b/lexer.c
@@ -229,12 +229,12 @@ void lex_single_string_literal(int *size) {
             else if (i[ip + 1] >= '0' && i[ip + 1] <= '7' ) {
                 ip++;
                 lex_octal_literal();
-                data[(*size)++] = cur_long & 0xff;
+                data[(*size)++] = cur_long;
             }
             else if (i[ip + 1] == 'x' ) {
                 ip += 2;
                 lex_hex_literal();
-                data[(*size)++] = cur_long & 0xff;
+                data[(*size)++] = cur_long;
             }
             else error("Unknown \\ escape in string literal");
         }
@@ -393,47 +393,39 @@ void next(void) {
             cur_long = 0;
             ip += 1;
 
-            int byte_count = 0;
+            int char_count = 0;
+            long value = 0;
             while (input_size - ip >= 1 && i[ip] != '\'') {
-                if (i[ip] != '\\') { cur_long = (cur_long  << 8) + i[ip++]; }
-                else if (i[ip] == '\\') {
+                if (i[ip] != '\\') cur_long = i[ip++];
+                else {
                     ip++;
-                         if (i[ip] == '\'') { ip++; cur_long = (cur_long << 8) +  '\''; }
-                    else if (i[ip] == '"' ) { ip++; cur_long = (cur_long << 8) +  '\"'; }
-                    else if (i[ip] == '?' ) { ip++; cur_long = (cur_long << 8) +  '?'; }
-                    else if (i[ip] == '\\') { ip++; cur_long = (cur_long << 8) +  '\\'; }
-                    else if (i[ip] == 'a' ) { ip++; cur_long = (cur_long << 8) +  7; }
-                    else if (i[ip] == 'b' ) { ip++; cur_long = (cur_long << 8) +  8; }
-                    else if (i[ip] == 'f' ) { ip++; cur_long = (cur_long << 8) +  12; }
-                    else if (i[ip] == 'n' ) { ip++; cur_long = (cur_long << 8) +  10; }
-                    else if (i[ip] == 'r' ) { ip++; cur_long = (cur_long << 8) +  13; }
-                    else if (i[ip] == 't' ) { ip++; cur_long = (cur_long << 8) +  9; }
-                    else if (i[ip] == 'v' ) { ip++; cur_long = (cur_long << 8) +  11; }
-                    else if (i[ip] == 'e' ) { ip++; cur_long = (cur_long << 8) +  27; }
-                    else if (i[ip] >= '0' && i[ip] <= '7' ) {
-                        int old_cur_long = cur_long;
-                        lex_octal_literal();
-                        cur_long &= 0xff;
-                        cur_long = (old_cur_long << 8) + cur_long;
-                    }
-                    else if (i[ip] == 'x' ) {
-                        ip++;
-                        unsigned int old_cur_long = cur_long;
-                        lex_hex_literal();
-                        int mask = (1 << (byte_count << 3)) - 1;
-
-                        if (!is_wide_char) {
-                            cur_long = ((old_cur_long & mask) << 8) + (cur_long & 0xff);
-
-                            // Sign extend the first byte
-                            if (byte_count == 0) cur_long = (int) ((char) cur_long);
-                        }
-                    }
+                         if (i[ip] == '\'') { ip++; cur_long = '\''; }
+                    else if (i[ip] == '"' ) { ip++; cur_long = '\"'; }
+                    else if (i[ip] == '?' ) { ip++; cur_long = '?'; }
+                    else if (i[ip] == '\\') { ip++; cur_long = '\\'; }
+                    else if (i[ip] == 'a' ) { ip++; cur_long = 7; }
+                    else if (i[ip] == 'b' ) { ip++; cur_long = 8; }
+                    else if (i[ip] == 'f' ) { ip++; cur_long = 12; }
+                    else if (i[ip] == 'n' ) { ip++; cur_long = 10; }
+                    else if (i[ip] == 'r' ) { ip++; cur_long = 13; }
+                    else if (i[ip] == 't' ) { ip++; cur_long = 9; }
+                    else if (i[ip] == 'v' ) { ip++; cur_long = 11; }
+                    else if (i[ip] == 'e' ) { ip++; cur_long = 27; }
+                    else if (i[ip] >= '0' && i[ip] <= '7' ) lex_octal_literal();
+                    else if (i[ip] == 'x' ) { ip++; lex_hex_literal(); }
                     else error("Unknown \\ escape in character literal");
                 }
-                byte_count++;
+
+                // A multi-character constant is a sequence of bytes
+                value = is_wide_char ? cur_long : (value << 8) + (cur_long & 0xff);
+                char_count++;
             }
             ip++;
+
+            if (!char_count) error("Empty character literal");
+
+            // A single character has the value of a char, converted to an int
+            cur_long = (!is_wide_char && char_count == 1) ? (char) value : (int) value;
         }
 
         // String literal
-- 
2.43.0


From d144d4e6ac2562c3d7fdc2ec6a26adfa40e4c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 10/93] fix: round up the size of a union to its alignment

---
 types.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/types.c b/types.c
index ea8bc7c..9fb14d4 100644
--- a/types.c
+++ b/types.c
@@ -870,12 +870,9 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
     s->is_incomplete = 0;
 
     int size;
-    if (s->is_union)
-        size = max_size;
-    else {
-        bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
-        size = bit_offset - initial_bit_offset;
-    }
+    if (s->is_union) bit_offset = initial_bit_offset + max_size;
+    bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
+    size = bit_offset - initial_bit_offset;
 
     s->size = size >> 3;
 
-- 
2.43.0


From 7a57a73f38770dafd462b60f89c597149ac419cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 11/93] fix: load bit-fields that are 32 bits wide

---
 ir.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ir.c b/ir.c
index 7cd46eb..c897fdd 100644
--- a/ir.c
+++ b/ir.c
@@ -1017,8 +1017,10 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = (1 << bit_size) - 1;
-        ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
+        unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
+        Value *mask_value = new_integral_constant(TYPE_INT, mask);
+        mask_value->type->is_unsigned = 1;
+        ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, mask_value);
     }
     else {
         // Shift left so that the value is at the end of the integer boundary
@@ -1036,7 +1038,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
         if (32 - bit_size)
             ir = insert_instruction_after_from_operation(ir, IR_ASHR, dst, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
         else
-            dst = shifted_value;
+            ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, shifted_value, 0);
     }
 }
 
-- 
2.43.0


From f2ff12b79547763acc8dfb10c832ead905bc782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 12/93] fix: precedence of relational operators and shifts

---
 constexpr.c | 8 ++++----
 parser.c    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 8045f0e..4e8dbfb 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -513,10 +513,10 @@ Value *parse_constant_expression(int level) {
             case TOK_MINUS:          value = parse_binary_expression(IR_SUB,  TOK_MULTIPLY,     value); break;
             case TOK_BITWISE_RIGHT:  value = parse_binary_expression(IR_BSHR, TOK_PLUS,         value); break;
             case TOK_BITWISE_LEFT:   value = parse_binary_expression(IR_BSHL, TOK_PLUS,         value); break;
-            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_RIGHT,value); break;
+            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_LEFT, value); break;
             case TOK_DBL_EQ:         value = parse_binary_expression(IR_EQ,   TOK_LT,           value); break;
             case TOK_NOT_EQ:         value = parse_binary_expression(IR_NE,   TOK_LT,           value); break;
             case TOK_AMPERSAND:      value = parse_binary_expression(IR_BAND, TOK_DBL_EQ,       value); break;
diff --git a/parser.c b/parser.c
index 33c9046..256fde9 100644
--- a/parser.c
+++ b/parser.c
@@ -2885,10 +2885,10 @@ static void parse_expression(int level) {
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
             case TOK_BITWISE_LEFT:     next(); parse_bitwise_shift(TOK_PLUS, IR_BSHL, IR_BSHL); break;
-            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LT,   new_type(TYPE_INT)); break;
-            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GT,   new_type(TYPE_INT)); break;
-            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LE,   new_type(TYPE_INT)); break;
-            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GE,   new_type(TYPE_INT)); break;
+            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_LT,   new_type(TYPE_INT)); break;
+            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_GT,   new_type(TYPE_INT)); break;
+            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_LE,   new_type(TYPE_INT)); break;
+            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_GE,   new_type(TYPE_INT)); break;
             case TOK_DBL_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_EQ,   new_type(TYPE_INT)); break;
             case TOK_NOT_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_NE,   new_type(TYPE_INT)); break;
             case TOK_AMPERSAND:        next(); parse_arithmetic_operation(TOK_DBL_EQ,        IR_BAND, 0); break;
-- 
2.43.0


From 228b3300b3d30b7199828746bf9e81a0e111f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 13/93] fix: dereference constant addresses

---
 instrrules.c |  6 ++++++
 instrsel.c   |  3 +++
 parser.c     | 40 ++++++++++++++++++++++------------------
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 4362e57..8a7a918 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1528,6 +1528,12 @@ void define_rules(void) {
     r = add_rule(XRI,  0, XMI, 0, 2); add_op(r, X_MOV,  DST, SRC1, 0, "mov%s %v1, %vd"); fin_rule(r);
     r = add_rule(XRU,  0, XMU, 0, 2); add_op(r, X_MOV,  DST, SRC1, 0, "mov%s %v1, %vd"); fin_rule(r);
 
+    // Constant addresses
+    r = add_rule(XRP, 0,  CI4,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
+    r = add_rule(XRP, 0,  CU4,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, 0,  CI4,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq $%v1q, %vdq");
+    r = add_rule(RP5, 0,  CU4,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq $%v1q, %vdq");
+
     r = add_rule(XRP, 0,  MI4,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, 0,  MU4,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, 0,  MPV,  0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
diff --git a/instrsel.c b/instrsel.c
index 8e9c874..28597da 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -829,6 +829,9 @@ static int tile_igraph_leaf_node(IGraph *igraph, int node_id) {
         if (!match_value_to_rule_src(v, r->src1)) continue;
         if (!v->is_constant && !v->label && v->type->type != TYPE_FUNCTION && !match_value_type_to_rule_dst(v, r->dst)) continue;
 
+        // Only constants that are pointers can be addresses
+        if (v->is_constant && r->dst >= RP1 && r->dst <= RP5 && !match_value_type_to_rule_dst(v, r->dst)) continue;
+
         if (debug_instsel_tiling) {
             printf("matched rule %d:\n", r->index);
             print_rule(r, 0, 0);
diff --git a/parser.c b/parser.c
index 256fde9..de34e7b 100644
--- a/parser.c
+++ b/parser.c
@@ -1091,6 +1091,15 @@ void parse_typedef(void) {
     wfree(base_type_with_storage_class);
 }
 
+// Load a constant address into a register
+static Value *load_constant_address(Value *src1) {
+    Value *dst = new_value();
+    dst->type = dup_type(src1->type);
+    dst->vreg = new_vreg();
+    add_parser_instruction(IR_MOVE, dst, src1, 0);
+    return dst;
+}
+
 static void indirect(void) {
     // The stack contains an rvalue which is a pointer. All that needs doing
     // is conversion of the rvalue into an lvalue on the stack and a type
@@ -1103,6 +1112,8 @@ static void indirect(void) {
 
     if (src1->is_lvalue) panic_with_line_number("Expected rvalue");
 
+    if (src1->is_constant) src1 = load_constant_address(src1);
+
     Value *dst = dup_value(src1);
     dst->type = deref_pointer(src1->type);
     dst->is_lvalue = 1;
@@ -2198,6 +2209,8 @@ static void parse_function_call(void) {
     if (popped_function->type->type != TYPE_FUNCTION && !is_pointer_to_function_type(popped_function->type))
         error("Illegal attempt to call a non-function");
 
+    if (popped_function->is_constant) popped_function = load_constant_address(popped_function);
+
     Symbol *symbol = popped_function->global_symbol;
     Type *function_type = popped_function->type->type == TYPE_FUNCTION ? popped_function->type : popped_function->type->target;
 
@@ -2615,30 +2628,21 @@ static void parse_expression(int level) {
             next();
             parse_expression(TOK_INC);
 
-            // Arrays are rvalues as well as lvalues. Otherwise, an lvalue is required
-            if ((vtop()->type->type == TYPE_ARRAY && vtop()->is_lvalue) && !vtop()->is_lvalue)
+            // Arrays are rvalues as well as lvalues. Otherwise, an lvalue or a function is required
+            if (vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION && !vtop()->is_lvalue)
                 error("Cannot take an address of an rvalue");
 
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
 
             Value *src1 = pop();
 
-            if (src1->is_constant)
-                // Special case of taking an address of a constant. This happens with
-                // the offsetof macro which does something like:
-                // define offsetof(STRUCTURE,FIELD) ((int) ((size_t)&((STRUCTURE*)0)->FIELD))
-                // e.g. (int) ((size_t) &((struct s *) 0)->m);
-                push_integral_constant(TYPE_LONG, src1->int_value + src1->offset);
-
-            else {
-                add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
-                if (src1->offset && src1->vreg) {
-                    // Non-vreg offsets are outputted by codegen. For addresses in registers, it
-                    // needs to be calculated.
-                    push_integral_constant(TYPE_INT, src1->offset);
-                    arithmetic_operation(IR_ADD, 0);
-                    src1->offset = 0;
-                }
+            add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
+            if (src1->offset && src1->vreg) {
+                // Non-vreg offsets are outputted by codegen. For addresses in registers, it
+                // needs to be calculated.
+                push_integral_constant(TYPE_INT, src1->offset);
+                arithmetic_operation(IR_ADD, 0);
+                src1->offset = 0;
             }
 
             break;
-- 
2.43.0


From 60ae8f2c2941dd03579084e566950c5a0bdc8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 14/93] fix: don't evaluate the operand of sizeof

---
 constexpr.c |  3 ++-
 parser.c    | 36 +++++++++++++++++++++++++++++++-----
 wcc.h       |  2 +-
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 4e8dbfb..1cdf084 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -450,8 +450,9 @@ Value *parse_constant_expression(int level) {
         }
 
         case TOK_SIZEOF: {
-            int size = parse_sizeof(parse_constant_expression);
+            int size = parse_sizeof();
             value = new_integral_constant(TYPE_LONG, size);
+            value->type->is_unsigned = 1;
             break;
         }
 
diff --git a/parser.c b/parser.c
index de34e7b..9e1b723 100644
--- a/parser.c
+++ b/parser.c
@@ -46,6 +46,8 @@ Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
 static void parse_expression(int level);
 static void parse_compound_statement(void);
+static void init_value_stack(void);
+static void free_value_stack(void);
 
 static BaseType *base_type;
 
@@ -1919,7 +1921,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         else {
             parsed_expression = parse_expr(TOK_EQ);
 
-            if (parsed_expression->is_string_literal) {
+            if (parsed_expression->is_string_literal && parsed_expression->type->type == TYPE_ARRAY) {
                 it = type_iterator_dig_for_string_literal(it);
 
                 initialize_string_literal =
@@ -2166,11 +2168,24 @@ Value *parse_expression_and_pop(int level) {
     return pop();
 }
 
-int parse_sizeof(parse_expression_function_type expr) {
+int parse_sizeof(void) {
     next();
 
     Type *type;
     Value *expression = 0;
+
+    // The operand isn't evaluated: throw away any instructions it adds. It has its own value stack,
+    // since it may be part of a constant expression outside of a function.
+    Value **saved_vs_bottom = vs_bottom;
+    Value **saved_vs_start = vs_start;
+    Value **saved_vs = vs;
+    init_value_stack();
+
+    Tac *saved_ir_start = ir_start;
+    Tac *saved_ir = ir;
+    int saved_function_call_count = function_call_count;
+    ir_start = ir = 0;
+
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
         next();
@@ -2178,12 +2193,21 @@ int parse_sizeof(parse_expression_function_type expr) {
         if (cur_token_is_type())
             type = parse_type_name();
         else
-            expression = expr(TOK_COMMA);
+            expression = parse_expression_and_pop(TOK_COMMA);
 
         consume(TOK_RPAREN, ")");
     }
     else
-        expression = expr(TOK_INC);
+        expression = parse_expression_and_pop(TOK_INC);
+
+    ir_start = saved_ir_start;
+    ir = saved_ir;
+    function_call_count = saved_function_call_count;
+
+    free_value_stack();
+    vs_bottom = saved_vs_bottom;
+    vs_start = saved_vs_start;
+    vs = saved_vs;
 
     if (expression) {
         if (expression->bit_field_size) error("Cannot take sizeof a bit field");
@@ -2541,6 +2565,7 @@ void parse_ternary_expression(void) {
 static void init_value_stack(void) {
     vs_bottom = wmalloc(sizeof(struct value *) * VALUE_STACK_SIZE);
     vs_start = vs_bottom + VALUE_STACK_SIZE; // The stack traditionally grows downwards
+    vs = vs_start;
 }
 
 static void free_value_stack(void) {
@@ -2827,7 +2852,8 @@ static void parse_expression(int level) {
             break;
 
         case TOK_SIZEOF:
-            push_integral_constant(TYPE_LONG, parse_sizeof(parse_expression_and_pop));
+            push_integral_constant(TYPE_LONG, parse_sizeof());
+            vtop()->type->is_unsigned = 1;
             break;
 
         default:
diff --git a/wcc.h b/wcc.h
index f3caf99..ce8bd3c 100644
--- a/wcc.h
+++ b/wcc.h
@@ -979,7 +979,7 @@ void parse_typedef(void);
 Type *find_struct_or_union(char *identifier, int is_union, int recurse);
 StructOrUnionMember *lookup_struct_or_union_member(Type *type, char *identifier);
 Value *make_symbol_value(Symbol *symbol);
-int parse_sizeof(parse_expression_function_type expr);
+int parse_sizeof(void);
 void parse(void);
 void dump_symbols(void);
 void init_parser(void);
-- 
2.43.0


From e8d9f6f43dc930b45fad4212e13c7fb38485960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 15/93] fix: address constants in static initializers

---
 codegen.c   |   2 +-
 constexpr.c | 176 +++++++++++++++++++++++++++++++++-------------------
 parser.c    |  15 +++--
 wcc.h       |   1 +
 4 files changed, 120 insertions(+), 74 deletions(-)

diff --git a/codegen.c b/codegen.c
index ec9caaa..382d96f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -818,7 +818,7 @@ static void output_symbol(Symbol *symbol) {
 
             Initializer *in = (Initializer *) symbol->initializers->elements[i];
 
-            if (in->is_address_of || in->symbol) {
+            if (in->symbol) {
                 if (in->address_of_offset)
                     fprintf(f,"    .quad    %s + %d\n", in->symbol->global_identifier, in->address_of_offset);
                 else
diff --git a/constexpr.c b/constexpr.c
index 1cdf084..d821368 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -7,10 +7,43 @@
 static int integers_are_longs; // All integers are longs, used in the preprocessor
 static int unevaluated;        // Set when parsing an operand that isn't evaluated
 
+// Convert an array to a pointer to its first element. The value of a pointer variable isn't constant,
+// but the difference of two addresses relative to it is, so it's treated as an address too.
+Value *decay_constant_array(Value *value) {
+    int is_array = value->type->type == TYPE_ARRAY;
+    int is_pointer_variable = value->type->type == TYPE_PTR && value->is_lvalue && !value->is_lvalue_in_register && value->global_symbol && !value->address_of_offset;
+
+    if (!is_array && !is_pointer_variable) return value;
+
+    value = dup_value(value);
+    if (is_array) value->type = decay_array_to_pointer(value->type);
+    if (is_pointer_variable) value->is_lvalue_in_register = 1;
+    value->is_lvalue = 0;
+    if (value->global_symbol) value->is_address_of = 1;
+
+    return value;
+}
+
+// Is it an address of something in static storage, possibly converted to an integer?
+static int is_address(Value *value) {
+    return !value->is_constant && !value->is_lvalue && (value->is_address_of || value->is_string_literal);
+}
+
+static void check_is_constant(Value *value) {
+    if (unevaluated) return;
+    if (!value->is_constant || value->is_lvalue) error("Expected a constant expression");
+}
+
 static Value *indirect(Value *value) {
+    value = decay_constant_array(value);
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
+    if (!is_address(value)) check_is_constant(value);
+    if (is_pointer_to_function_type(value->type)) return value;
 
+    value = dup_value(value);
     value->type = deref_pointer(value->type);
+    value->is_address_of = 0;
+    value->is_lvalue = 1;
 
     return value;
 }
@@ -185,12 +218,13 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     Type *src_type = src->type;
 
     Value *dst = new_value();
-    dst->is_constant = 1;
+    dst->is_constant = src->is_constant;
     dst->address_of_offset = src->address_of_offset;
     dst->int_value = src->int_value;
     dst->type = dst_type;
     dst->global_symbol = src->global_symbol;
     dst->is_address_of = src->is_address_of;
+    dst->is_lvalue_in_register = src->is_lvalue_in_register;
     dst->is_string_literal = src->is_string_literal;
     dst->string_literal_index = src->string_literal_index;
 
@@ -240,83 +274,85 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
 
 static Value *parse_unary_expression(int operation) {
     next();
-    Value *value = parse_constant_expression(TOK_INC);
+    Value *value = decay_constant_array(parse_constant_expression(TOK_INC));
     check_unary_operation_type(operation, value);
+    check_is_constant(value);
     if (is_floating_point_type(value->type))
         return evaluate_const_unary_fp_operation(operation, value);
     else
         return evaluate_const_unary_int_operation(operation, value);
 }
 
-static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
-    if (value1->is_string_literal) value1->type = decay_array_to_pointer(value1->type);
-    if (value2->is_string_literal) value2->type = decay_array_to_pointer(value2->type);
+static Value *add_constant_address_offset(Value *value, long count) {
+    Value *result = dup_value(value);
+    long offset = count * (is_pointer_type(value->type) ? get_type_size(value->type->target) : 1);
 
-    if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
-    else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
+    if (value->is_constant)
+        result->int_value += offset;
+    else
+        result->address_of_offset += offset;
 
-    Value *result;
+    return result;
+}
 
+static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
     if (operation == IR_ADD) {
-        long arithmetic_value;
-        if (is_pointer_type(value1->type)) {
-            result = dup_value(value1);
-            arithmetic_value = value2->int_value;
-        }
-        else {
-            result = dup_value(value2);
-            arithmetic_value = value1->int_value;
-        }
+        check_plus_operation_type(value1, value2, 0);
 
-        long size = arithmetic_value * get_type_size(result->type->target);
+        int first_is_address = is_pointer_type(value1->type) || is_address(value1);
+        Value *address = first_is_address ? value1 : value2;
+        Value *offset = first_is_address ? value2 : value1;
 
-        if (result->is_address_of || result->is_string_literal)
-            result->address_of_offset += size;
-        else
-            result->int_value += size;
+        check_is_constant(offset);
+        if (!is_address(address)) check_is_constant(address);
+
+        return add_constant_address_offset(address, offset->int_value);
     }
-    else {
-        if (is_pointer_type(value2->type)) {
-            // Pointer-pointer subtraction
-            int size =  get_type_size(value1->type->target);
 
-            if (value1->global_symbol != value2->global_symbol)
-                error("Operand mismatch in constant pointer subtraction");
+    check_minus_operation_type(value1, value2);
 
-            long difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
-            result = new_integral_constant(TYPE_LONG, difference / size);
+    if (is_pointer_type(value2->type) || is_address(value2)) {
+        // Pointer-pointer subtraction
+        int size = is_pointer_type(value1->type) ? get_type_size(value1->type->target) : 1;
 
-        }
-        else {
-            result = dup_value(value1);
-            long size =  value2->int_value * get_type_size(result->type->target);
-            if (result->is_address_of || result->is_string_literal)
-                result->address_of_offset -= size;
-            else
-                result->int_value -= size;
-        }
+        if (
+                !(is_address(value1) && is_address(value2) || value1->is_constant && value2->is_constant) || value1->global_symbol != value2->global_symbol ||
+                value1->is_lvalue_in_register != value2->is_lvalue_in_register ||
+                value1->is_string_literal || value2->is_string_literal)
+            error("Operand mismatch in constant pointer subtraction");
+
+        long difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
+        return new_integral_constant(TYPE_LONG, difference / size);
     }
 
-    return result;
+    if (!is_address(value1)) check_is_constant(value1);
+    check_is_constant(value2);
+    return add_constant_address_offset(value1, -value2->int_value);
 }
 
 static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
     next();
 
+    value1 = decay_constant_array(value1);
+
     // The right hand side of && and || isn't evaluated if the left hand side determines the result
     int short_circuit =
         operation == IR_LAND && value1->is_constant && !is_const_true(value1) ||
         operation == IR_LOR  && value1->is_constant &&  is_const_true(value1);
 
     unevaluated += short_circuit;
-    Value *value2 = parse_constant_expression(second_level);
+    Value *value2 = decay_constant_array(parse_constant_expression(second_level));
     unevaluated -= short_circuit;
 
     check_binary_operation_types(operation, value1, value2);
 
-    if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
+    int has_address = is_pointer_type(value1->type) || is_pointer_type(value2->type) || is_address(value1) || is_address(value2);
+    if ((operation == IR_ADD || operation == IR_SUB) && has_address)
         return parse_address_plus_minus(operation, value1, value2);
 
+    check_is_constant(value1);
+    if (!short_circuit) check_is_constant(value2);
+
     Type *result_type = operation_type(value1, value2, 0);
     if (unevaluated && !is_const_operation_defined(operation, value1, value2))
         return new_const_int_value(result_type, 0);
@@ -328,16 +364,17 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
 
 static Value *parse_ternary(Value *value) {
     next();
+    check_is_constant(value);
     int which = is_const_true(value);
 
     unevaluated += !which;
-    Value *value1 = parse_constant_expression(TOK_TERNARY);
+    Value *value1 = decay_constant_array(parse_constant_expression(TOK_TERNARY));
     unevaluated -= !which;
 
     consume(TOK_COLON, ":");
 
     unevaluated += which;
-    Value *value2 = parse_constant_expression(TOK_TERNARY);
+    Value *value2 = decay_constant_array(parse_constant_expression(TOK_TERNARY));
     unevaluated -= which;
 
     check_ternary_operation_types(value, value1, value2);
@@ -376,19 +413,16 @@ Value *parse_constant_expression(int level) {
             value = parse_constant_expression(TOK_INC);
             if (value->bit_field_size) error("Cannot take an address of a bit-field");
 
-            if (!value->is_string_literal && !value->global_symbol && !value->is_constant)
-                error("Illegal operand to & in constant expression");
+            // A function is already converted to a pointer
+            if (is_pointer_to_function_type(value->type) && value->is_address_of) break;
 
-            if (value->is_constant) {
-                value->int_value += value->address_of_offset;
-                value->is_constant = 0;
-            }
+            if (!value->is_lvalue && !(value->is_string_literal && value->type->type == TYPE_ARRAY))
+                error("Illegal operand to & in constant expression");
 
-            value->is_address_of = 1;
-
-            // Hacky horror, only create a pointer unless it's already a pointer to a function
-            if (!is_pointer_to_function_type(value->type))
-                value->type = make_pointer(value->type);
+            value = dup_value(value);
+            value->is_lvalue = 0;
+            value->type = make_pointer(value->type);
+            if (value->global_symbol) value->is_address_of = 1;
 
             break;
 
@@ -401,7 +435,8 @@ Value *parse_constant_expression(int level) {
                 // Cast
                 Type *type = parse_type_name();
                 consume(TOK_RPAREN, ")");
-                value = parse_constant_expression(TOK_INC);
+                value = decay_constant_array(parse_constant_expression(TOK_INC));
+                if (!is_address(value)) check_is_constant(value);
                 value = cast_constant_value(value, type);
             }
             else {
@@ -444,8 +479,6 @@ Value *parse_constant_expression(int level) {
             else
                 value = make_symbol_value(symbol);
 
-            value->global_symbol = symbol;
-
             break;
         }
 
@@ -467,17 +500,24 @@ Value *parse_constant_expression(int level) {
             case TOK_LBRACKET:
                 next();
 
-                if (value->type->type != TYPE_PTR && value->type->type != TYPE_ARRAY)
-                    error("Invalid operator [] on a non-pointer and non-array");
-
-                Value *subscript_value = parse_constant_expression(TOK_COMMA);
+                Value *subscript_value = decay_constant_array(parse_constant_expression(TOK_COMMA));
                 consume(TOK_RBRACKET, "]");
 
+                value = decay_constant_array(value);
+                if (!is_pointer_type(value->type) && is_pointer_type(subscript_value->type)) {
+                    // n[p] is the same as p[n]
+                    Value *temp = value;
+                    value = subscript_value;
+                    subscript_value = temp;
+                }
+
+                if (!is_pointer_type(value->type))
+                    error("Invalid operator [] on a non-pointer and non-array");
+
                 if (!subscript_value->is_constant || !is_integer_type(subscript_value->type))
                     error("Expected an integer constant integer expression in []");
 
-                value->address_of_offset += get_type_size(value->type->target) * subscript_value->int_value;
-                value->type = value->type->target;
+                value = indirect(add_constant_address_offset(value, subscript_value->int_value));
 
                 break;
 
@@ -487,6 +527,7 @@ Value *parse_constant_expression(int level) {
                     error("Can only use . on a struct or union");
 
                 if (cur_token != TOK_DOT) {
+                    value = decay_constant_array(value);
                     if (!is_pointer_type(value->type)) error("Cannot use -> on a non-pointer");
                     if (value->type->target->type != TYPE_STRUCT_OR_UNION) error("Can only use -> on a pointer to a struct or union");
                     if (is_incomplete_type(value->type->target)) error("Dereferencing a pointer to incomplete struct or union");
@@ -501,7 +542,12 @@ Value *parse_constant_expression(int level) {
 
                 StructOrUnionMember *member = lookup_struct_or_union_member(value->type, cur_identifier);
 
-                value->address_of_offset += member->offset;
+                value = dup_value(value);
+                if (value->is_constant)
+                    value->int_value += member->offset;
+                else
+                    value->address_of_offset += member->offset;
+
                 value->bit_field_size = member->bit_field_size;
                 value->type = dup_type(member->type);
 
diff --git a/parser.c b/parser.c
index 9e1b723..acaab30 100644
--- a/parser.c
+++ b/parser.c
@@ -1759,12 +1759,16 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
     }
 
     if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
+        scalar = decay_constant_array(scalar);
+        size = get_type_size(dst->type);
+
+        if (scalar->is_lvalue || scalar->is_lvalue_in_register || !scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of)
             error("An initializer for an object with static storage duration must be a constant expression");
 
-        if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+        if (!scalar->is_constant && (size != 8 || is_floating_point_type(dst->type)))
+            error("An address can only be used to initialize a pointer or a long");
 
-        size = get_type_size(dst->type);
+        if (scalar->is_constant) scalar = cast_constant_value(scalar, dst->type);
 
         if (scalar->type->type == TYPE_FLOAT) {
             in->data = wmalloc(sizeof(float));
@@ -1794,8 +1798,6 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
         else if (scalar->is_address_of) {
             in->is_address_of = 1;
             in->address_of_offset = scalar->address_of_offset;
-            in->is_string_literal = scalar->is_string_literal;
-            in->string_literal_index = scalar->string_literal_index;
             in->symbol = scalar->global_symbol;
         }
         else if (scalar->is_string_literal) {
@@ -1803,9 +1805,6 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
             in->string_literal_index = scalar->string_literal_index;
             in->address_of_offset = scalar->address_of_offset;
         }
-        else if (scalar->type->type == TYPE_ARRAY) {
-            in->symbol = scalar->global_symbol;
-        }
         else {
             in->data = wmalloc(sizeof(long));
             *((long *) in->data) = scalar->int_value;
diff --git a/wcc.h b/wcc.h
index ce8bd3c..93d83cb 100644
--- a/wcc.h
+++ b/wcc.h
@@ -991,6 +991,7 @@ Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
 long double convert_floating_point(long double value, Type *type);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
+Value *decay_constant_array(Value *value);
 Value *parse_constant_expression(int level);
 Value *parse_constant_integer_expression(int all_longs);
 
-- 
2.43.0


From c5b1191cf8cf0c32c04e85279bc1a8a0331ba517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 16/93] fix: leave one value on the stack after a compound
 assignment

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index acaab30..b158d05 100644
--- a/parser.c
+++ b/parser.c
@@ -2005,7 +2005,7 @@ Value *prep_comp_assign(void) {
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
     if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
-    Value *v1 = vtop();           // lvalue
+    Value *v1 = pop();            // lvalue
     push(load(dup_value(v1)));  // rvalue
     return v1;
 }
-- 
2.43.0


From 4d8451e2f1194873561d16aee10cb38e24b4d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 17/93] fix: postfix operators bind tighter than multiplication

---
 parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index b158d05..4933a24 100644
--- a/parser.c
+++ b/parser.c
@@ -2907,9 +2907,9 @@ static void parse_expression(int level) {
             }
 
             // In order of precedence
-            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_DOT, IR_MUL, 0); break;
-            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_DOT, IR_DIV, 0); break;
-            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_DOT, IR_MOD, 0); break;
+            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_INC, IR_MUL, 0); break;
+            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_INC, IR_DIV, 0); break;
+            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_INC, IR_MOD, 0); break;
             case TOK_PLUS:             next(); parse_addition(TOK_MULTIPLY, 0); break;
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
-- 
2.43.0


From 795c6c1f5ab88642010ea04807977ce525d68af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 18/93] fix: subtraction of arrays

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 4933a24..5fc9631 100644
--- a/parser.c
+++ b/parser.c
@@ -2049,11 +2049,13 @@ static void parse_addition(int level, int for_array_subscript) {
 }
 
 static void parse_subtraction(int level) {
+    if (vtop()->type->type == TYPE_ARRAY) push(decay_array_value(pl()));
     Value *src1 = vtop();
 
     int factor = get_type_inc_dec_size(vtop()->type);
 
     parse_expression(level);
+    if (vtop()->type->type == TYPE_ARRAY) push(decay_array_value(pl()));
     Value *src2 = vtop();
 
     check_minus_operation_type(src1, src2);
-- 
2.43.0


From 408bca0af2fea3739a457b5749e412b799f8a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 19/93] fix: size instruction graphs after the expressions they
 hold

---
 instrsel.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index 28597da..d135ae3 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -5,9 +5,8 @@
 #include "wcc.h"
 
 enum {
-    MAX_INSTRUCTION_GRAPH_EDGE_COUNT = 128,
-    MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT = 1024,
-    MAX_INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT = 1024,
+    MIN_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT = 1024,
+    MAX_INSTRUCTION_GRAPH_NODE_CHOICES = 64,
     MAX_CHOICE_TRAIL_COUNT = 32,
     MAX_SAVED_REGISTERS = 8,
 };
@@ -189,7 +188,7 @@ static IGraph *merge_igraphs(IGraph *g1, IGraph *g2, int vreg) {
     append_to_list(allocated_igraph_nodes, inodes);
 
     g->nodes = inodes;
-    g->graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+    g->graph = new_graph(node_count, 2 * node_count);
     append_to_list(allocated_graphs, g->graph);
     g->node_count = node_count;
     int join_from = -1;
@@ -342,7 +341,7 @@ static void make_igraphs(Function *function, int block_id) {
         IGraphNode *nodes = wcalloc(node_count, sizeof(IGraphNode));
         append_to_list(allocated_igraph_nodes, nodes);
 
-        Graph *graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+        Graph *graph = new_graph(node_count, 2 * node_count);
         append_to_list(allocated_graphs, graph);
 
         nodes[0].tac = tac;
@@ -543,7 +542,7 @@ static IGraph *simplify_igraph(IGraph *src) {
     append_to_list(allocated_igraph_nodes, inodes);
 
     dst->nodes = inodes;
-    dst->graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+    dst->graph = new_graph(node_count, 2 * node_count);
     append_to_list(allocated_graphs, dst->graph);
     dst->node_count = node_count;
 
@@ -734,8 +733,8 @@ static void print_cost_graph(Graph *cost_graph, int *cost_rules, int *accumulate
 }
 
 static int new_cost_graph_node(void) {
-    if (cost_graph_node_count == MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT)
-        panic("MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT");
+    if (cost_graph_node_count == cost_graph->node_count)
+        panic("Exceeded max instruction graph choice node count %d", cost_graph->node_count);
     return cost_graph_node_count++;
 }
 
@@ -1319,12 +1318,16 @@ static void tile_igraphs(Function *function) {
         if (debug_instsel_tiling)
             printf("\nTiling\n-----------------------------------------------------\n");
 
-        cost_graph = new_graph(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, MAX_INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT);
-        cost_rules = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
-        accumulated_cost = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        int max_choice_node_count = MAX_INSTRUCTION_GRAPH_NODE_CHOICES * igraphs[i].node_count;
+        if (max_choice_node_count < MIN_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT) max_choice_node_count = MIN_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT;
+
+        // A choice has an edge to it and at most two to its operands
+        cost_graph = new_graph(max_choice_node_count, 3 * max_choice_node_count);
+        cost_rules = wcalloc(max_choice_node_count, sizeof(int));
+        accumulated_cost = wcalloc(max_choice_node_count, sizeof(int));
 
         cost_graph_node_count = 0;
-        cost_to_igraph_map = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        cost_to_igraph_map = wcalloc(max_choice_node_count, sizeof(int));
 
         recursive_tile_igraphs(&(igraphs[i]), 0);
         if (debug_instsel_cost_graph) print_cost_graph(cost_graph, cost_rules, accumulated_cost);
-- 
2.43.0


From 07b3890125eeed649802db528dd6436e7c2c2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 20/93] fix: continue in a do/while loop

---
 parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 5fc9631..e47e846 100644
--- a/parser.c
+++ b/parser.c
@@ -2957,7 +2957,7 @@ static void parse_expression(int level) {
 }
 
 static void parse_iteration_conditional_expression(Value **lcond, Value **cur_loop_continue_dst, Value *lend) {
-    *lcond  = new_label_dst();
+    if (!*lcond) *lcond = new_label_dst();
     *cur_loop_continue_dst = *lcond;
     add_jmp_target_instruction(*lcond);
 
@@ -3033,6 +3033,9 @@ static void parse_iteration_statement(void) {
         consume(TOK_RPAREN, ")");
     }
 
+    // Continue jumps to the condition of a do/while
+    if (loop_token == TOK_DO) cur_loop_continue_dst = lcond = new_label_dst();
+
     if (!cur_loop_continue_dst) cur_loop_continue_dst = lbody;
     add_jmp_target_instruction(lbody);
     parse_statement();
-- 
2.43.0


From 820c92bd0d217c7eb08151989810e35ae3fa473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 21/93] fix: color live ranges bound to a physical register
 first

---
 ssa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ssa.c b/ssa.c
index 1dcbdf2..ed183fa 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1820,6 +1820,14 @@ static void make_live_range_spill_cost(Function *function) {
 
     if (opt_short_lr_infinite_spill_costs) add_infinite_spill_costs(function);
 
+    // Live ranges that must go in a specific physical register cannot be spilled. Ensure
+    // they are colored first, before anything else can take their register.
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->dst  && tac->dst ->vreg && tac->dst ->live_range_preg) spill_cost[tac->dst ->vreg] = 1 << 28;
+        if (tac->src1 && tac->src1->vreg && tac->src1->live_range_preg) spill_cost[tac->src1->vreg] = 1 << 28;
+        if (tac->src2 && tac->src2->vreg && tac->src2->live_range_preg) spill_cost[tac->src2->vreg] = 1 << 28;
+    }
+
     if (debug_ssa_spill_cost) {
         printf("Spill costs:\n");
         for (int i = 1; i <= vreg_count; i++)
-- 
2.43.0


From 1bbe37c30b015dc0dc1adc5c3e88facebfe2383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 22/93] fix: pass structs of one eightbyte on the stack when
 out of registers

---
 functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.c b/functions.c
index 7f8ed9e..ca4bd5a 100644
--- a/functions.c
+++ b/functions.c
@@ -1669,7 +1669,7 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
 
                 // Part of the struct/union overflowed into the stack due to a shortage
                 // of registers. Roll back & put the whole thing in the stack.
-                if (on_stack && eight_bytes_count > 1) {
+                if (on_stack) {
                     if (debug_function_param_allocation) printf("         ran out of registers, rewinding ... \n");
                     *fpa = *backup_fpa;
                     add_single_stack_function_param_location(fpa, type);
-- 
2.43.0


From c97aa3cda65261d00698a8eeaa2702e572a3d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 23/93] fix: classify structs by the bytes their members occupy

---
 functions.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index ca4bd5a..13c0779 100644
--- a/functions.c
+++ b/functions.c
@@ -1549,7 +1549,17 @@ static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset)
         StructOrUnion *s = type->struct_or_union_desc;
         for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
             StructOrUnionMember *member = *pmember;
-            flatten_type(member->type, scalars, offset + member->offset);
+
+            if (member->is_bit_field) {
+                // Add the bytes the bit field is in. Unnamed bit fields are ignored.
+                if (!member->bit_field_size || !member->identifier) continue;
+
+                int first_byte = member->bit_field_offset >> 3;
+                int last_byte = (member->bit_field_offset + member->bit_field_size - 1) >> 3;
+                for (int i = first_byte; i <= last_byte; i++) flatten_type(new_type(TYPE_CHAR), scalars, offset + i);
+            }
+            else
+                flatten_type(member->type, scalars, offset + member->offset);
         }
     }
 
@@ -1613,7 +1623,8 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             size = 0; // Needs recalculating to remove any paddding at the end
             for (int i = 0; i < scalars->count; i++) {
                 StructOrUnionScalar *scalar = scalars->scalars[i];
-                size +=  get_type_size(scalar->type);
+                int end = scalar->offset + get_type_size(scalar->type);
+                if (end > size) size = end;
                 int eight_byte = scalar->offset >> 3;
                 member_counts[eight_byte]++;
 
-- 
2.43.0


From 8f76eb35f2185744586b3190181146069509717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 24/93] fix: determine how structs are returned for function
 pointers too

---
 functions.c | 17 +++++++++++++++--
 parser.c    |  8 +-------
 wcc.h       |  1 +
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/functions.c b/functions.c
index 13c0779..cdb3ecb 100644
--- a/functions.c
+++ b/functions.c
@@ -177,7 +177,7 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
 
     Type *function_type = ir->src1->type;
 
-    FunctionParamAllocation *fpa = function_type->function->return_value_fpa;
+    FunctionParamAllocation *fpa = get_return_value_fpa(function_type);
     FunctionParamLocations *fpl = fpa->param_locations->elements[0];
 
     Value *function_value = ir->src1;
@@ -897,7 +897,7 @@ void remap_stack_index(int *stack_index_remap, Value *v) {
 // the target in rdi. Make a copy of rdi in return_value_pointer for use in the
 // return value code. The function returns 1 if rdi has been used in this way.
 static int setup_return_for_struct_or_union(Function *function) {
-    FunctionParamAllocation *fpa = function->type->function->return_value_fpa;
+    FunctionParamAllocation *fpa = get_return_value_fpa(function->type);
 
     if (fpa_pl(fpa, 0).locations[0].stack_offset == -1) return 0;
 
@@ -1704,6 +1704,19 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
     }
 }
 
+// Determine how a function returns a struct or union. Returns zero if it doesn't return one.
+FunctionParamAllocation *get_return_value_fpa(Type *function_type) {
+    if (function_type->target->type != TYPE_STRUCT_OR_UNION) return 0;
+
+    if (!function_type->function->return_value_fpa) {
+        FunctionParamAllocation *fpa = init_function_param_allocaton("return value");
+        add_function_param_to_allocation(fpa, function_type->target);
+        function_type->function->return_value_fpa = fpa;
+    }
+
+    return function_type->function->return_value_fpa;
+}
+
 // Calculate the final size and padding of the stack
 void finalize_function_param_allocation(FunctionParamAllocation *fpa) {
     fpa->padding = ((fpa->offset + fpa->biggest_alignment  - 1) & (~(fpa->biggest_alignment - 1))) - fpa->offset;
diff --git a/parser.c b/parser.c
index e47e846..fbb8ffa 100644
--- a/parser.c
+++ b/parser.c
@@ -2249,7 +2249,7 @@ static void parse_function_call(void) {
     // Allocate an integer slot if the function returns a slot in memory. The
     // RDI register must contain a pointer to the return value, set by the caller.
     int has_struct_or_union_return_value = 0;
-    FunctionParamAllocation *rv_fpa = function_type->function->return_value_fpa;
+    FunctionParamAllocation *rv_fpa = get_return_value_fpa(function_type);
     if (rv_fpa) {
         FunctionParamLocations *rv_fpl = rv_fpa->param_locations->elements[0];
         if (rv_fpl->locations[0].stack_offset != -1) {
@@ -3438,12 +3438,6 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
         symbol->function->local_symbol_count = 0;
         symbol->function->labels = new_strmap();
         symbol->function->goto_backpatches = 0;
-
-        if (type->target->type == TYPE_STRUCT_OR_UNION) {
-            FunctionParamAllocation *fpa = init_function_param_allocaton(cur_type_identifier);
-            add_function_param_to_allocation(fpa, type->target);
-            type->function->return_value_fpa = fpa;
-        }
     }
     else
         symbol->function = original_symbol->function;
diff --git a/wcc.h b/wcc.h
index 93d83cb..734c944 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1172,6 +1172,7 @@ Value *make_function_call_value(int function_call);
 FunctionParamAllocation *init_function_param_allocaton(char *function_identifier);
 void free_function_param_allocaton(FunctionParamAllocation *fpa);
 void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type);
+FunctionParamAllocation *get_return_value_fpa(Type *function_type);
 void finalize_function_param_allocation(FunctionParamAllocation *fpa);
 
 RegisterSet arg_register_set;
-- 
2.43.0


From 3d6dd6e35db6fc1657d5f612723e0592908630ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 25/93] fix: treat pointer constants as 64 bit constants in
 instruction selection

---
 instrutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrutil.c b/instrutil.c
index da09092..8f29541 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -367,7 +367,7 @@ int match_value_to_rule_src(Value *v, int src) {
 
             // Check match with type from the parser. This is necessary for evil casts, e.g.
             // (unsigned int) -1, which would otherwise become a CU4 and not match rules for CU3.
-                 if (src >= CI3 && src <= CI4 && !v->type->is_unsigned && vtt != TYPE_LONG)  return 1;
+                 if (src >= CI3 && src <= CI4 && !v->type->is_unsigned && vtt != TYPE_LONG && vtt != TYPE_PTR) return 1;
             else if (              src == CI4 && !v->type->is_unsigned)                      return 1;
                  if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && vtt != TYPE_LONG)  return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                      return 1;
-- 
2.43.0


From d1f4d2f208b16affee368d2986a5eea489a635af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 26/93] fix: don't push unsigned 32 bit constants as sign
 extended immediates

---
 instrrules.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 8a7a918..69d5f5b 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1655,13 +1655,17 @@ void define_rules(void) {
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
     r = add_rule(RI4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
+    r = add_rule(RU4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
 
-    // imm64 needs to be loaded into a register first
-    r = add_rule(0, IR_ARG, CI4, XC4, 2);
-    add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
-    add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
-    add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
-    fin_rule(r);
+    // imm64 needs to be loaded into a register first. CU3 also needs it, since the
+    // immediate in pushq is sign extended.
+    for (int i = 0; i < 2; i++) {
+        r = add_rule(0, IR_ARG, CI4, i ? CU3 : XC4, 2);
+        add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
+        add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
+        add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
+        fin_rule(r);
+    }
 
     // Long double constant arg
     r = add_rule(0, IR_ARG, CI4, CLD, 2);
-- 
2.43.0


From e1989617d9cdc868a7a7e38e0ebf4978895313cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 27/93] fix: allow the stack pointer instruction to be merged
 into other instructions

---
 instrrules.c | 2 +-
 instrsel.c   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index 69d5f5b..283a764 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1650,7 +1650,7 @@ void define_rules(void) {
     // Constants in pushed argument. pushq immediate can only be 32 bit
     r = add_rule(0, IR_ARG, CI4, XC1, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
     r = add_rule(0, IR_ARG, CI4, XC2, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
-    r = add_rule(0, IR_ARG, CI4, XC3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
+    r = add_rule(0, IR_ARG, CI4, CI3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
 
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
diff --git a/instrsel.c b/instrsel.c
index d135ae3..b091237 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -790,11 +790,15 @@ static int tile_igraph_operand_less_node(IGraph *igraph, int node_id) {
     for (int i = 0; i < rules->length; i++) {
         Rule *r = rules->elements[i];
 
+        if (tac->dst && !match_value_type_to_rule_dst(tac->dst, r->dst)) continue;
+
         if (debug_instsel_tiling) {
             printf("matched rule %d:\n", r->index);
             print_rule(r, 0, 0);
         }
 
+        longset_add(igraph_labels[node_id], r->index); // Add a label
+
         int choice_node_id = new_cost_graph_node();
         cost_to_igraph_map[choice_node_id] = node_id;
         cost_rules[choice_node_id] = r->index;
-- 
2.43.0


From 21f8dcdbc61345c8efe7452233eae101b9910b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 28/93] fix: allocate the full size of structs returned in
 registers

---
 functions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.c b/functions.c
index cdb3ecb..52c9bfd 100644
--- a/functions.c
+++ b/functions.c
@@ -185,6 +185,9 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
     if (fpl->locations[0].stack_offset == -1) {
         // Move registers to a struct/union on the stack
 
+        // Ensure the struct/union's full size is allocated on the stack
+        insert_instruction_from_operation(ir, IR_DECL_LOCAL_COMP_OBJ, 0, ir->dst, 0, 1);
+
         ir->dst = 0;
         ir = ir->next;
 
-- 
2.43.0


From b3e9b70fe3365afae3daf4beba2a273d6bd6851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 29/93] fix: don't treat the register with the address of a
 float as a floating point register

---
 functions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/functions.c b/functions.c
index 52c9bfd..32faeb3 100644
--- a/functions.c
+++ b/functions.c
@@ -435,6 +435,12 @@ static void load_struct_scalar_into_temp(Function *function, Tac *ir, Value *par
     src1->type = type;
     src1->offset += pl->stru_offset + offset;
 
+    if (lvalue_in_register) {
+        // The register holds a pointer, it must not be treated as holding the scalar's type
+        src1->type = make_pointer(type);
+        src1->is_lvalue = 0;
+    }
+
     insert_instruction_from_operation(ir, lvalue_in_register ? IR_INDIRECT : IR_MOVE, temp, src1, 0, 1);
 }
 
-- 
2.43.0


From f87ef28cc46e4230a97c9ab448e50164abcb9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 30/93] fix: size the table of stack parameters for struct
 parameters

---
 functions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions.c b/functions.c
index 32faeb3..e1d6b65 100644
--- a/functions.c
+++ b/functions.c
@@ -1338,9 +1338,10 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     int *has_address_of = wcalloc(function->type->function->param_count, sizeof(int));
 
-    // The stack is never bigger than function->type->function->param_count * 2 & starts at 2
-    int *stack_param_vregs = wmalloc(sizeof(int) * (function->type->function->param_count * 2 + 2));
-    memset(stack_param_vregs, -1, sizeof(int) * (function->type->function->param_count * 2 + 2));
+    // The stack indexes of the parameters start at 2. Structs can take up any amount of them.
+    int stack_param_count = function->type->function->param_count * 2 + 2 + (fpa->offset >> 3);
+    int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_count);
+    memset(stack_param_vregs, -1, sizeof(int) * stack_param_count);
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
-- 
2.43.0


From 2b4ea7858965ff2c03982746145a5d1fc5dcd9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 31/93] fix: compute the size and alignment of a struct once

---
 types.c | 55 ++++++++++++-------------------------------------------
 wcc.h   |  1 +
 2 files changed, 13 insertions(+), 43 deletions(-)

diff --git a/types.c b/types.c
index 9fb14d4..9423ab5 100644
--- a/types.c
+++ b/types.c
@@ -300,26 +300,6 @@ static StructOrUnionMember *dup_struct_or_union_member(StructOrUnionMember *src)
     return dst;
 }
 
-static StructOrUnion *dup_struct_or_union(StructOrUnion *src) {
-    StructOrUnion *dst = wmalloc(sizeof(StructOrUnion));
-    append_to_list(all_structs_and_unions, dst);
-
-    dst->size          = src->size;
-    dst->is_incomplete = src->is_incomplete;
-    dst->is_packed     = src->is_packed;
-    dst->is_union      = src->is_union;
-
-    int len;
-    for (len = 0; src->members[len]; len++);
-
-    dst->members = wcalloc(len + 1, sizeof(StructOrUnionMember *));
-
-    for (int i = 0; src->members[i]; i++)
-        dst->members[i] = dup_struct_or_union_member(src->members[i]);
-
-    return dst;
-}
-
 Type *integer_promote_type(Type *type) {
     if (!is_integer_type(type)) error("Invalid operand, expected integer type");
 
@@ -487,15 +467,8 @@ int get_type_alignment(Type *type) {
             return 16;
         case TYPE_ARRAY:
             return get_type_alignment(type->target);
-        case TYPE_STRUCT_OR_UNION: {
-            // The alignment of a struct is the max alignment of all members
-            int max = 0;
-            for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
-                int alignment = get_type_alignment((*pmember)->type);
-                if (alignment > max) max = alignment;
-            }
-            return max;
-        }
+        case TYPE_STRUCT_OR_UNION:
+            return type->struct_or_union_desc->alignment;
         case TYPE_FUNCTION: // Is really a pointer to a function
             return 8;
         default:
@@ -822,7 +795,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     int initial_bit_offset = bit_offset;
     int max_size = 0;
-    int max_alignment = 0;
+    int max_alignment = 8;
 
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
         StructOrUnionMember *member = *pmember;
@@ -840,23 +813,16 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
                 if (new_bit_offset != (bit_offset & ~31)) bit_offset = ((bit_offset + 31) & ~31);
             }
 
-            // Ensure the alignment is at least 4 bytes
-            if (max_alignment < 32) max_alignment = 32;
+            // Ensure the alignment is at least 4 bytes. Unnamed bit fields don't affect the alignment.
+            if (member->identifier && max_alignment < 32) max_alignment = 32;
         }
         else {
             int alignment = s->is_packed ? 8 : get_type_alignment(member->type) * 8;
             if (alignment > max_alignment) max_alignment = alignment;
             bit_offset = ((bit_offset + alignment - 1) & (~(alignment - 1)));
 
-            if (member->type->type == TYPE_STRUCT_OR_UNION) {
-                // Duplicate the structs, since the bit_offset will be set and otherwise
-                // would end up to a reused struct having invalid bit_offsets
-                member->type->struct_or_union_desc = dup_struct_or_union(member->type->struct_or_union_desc);
-                size = recursive_complete_struct_or_union(member->type->struct_or_union_desc, bit_offset);
-            }
-            else {
-                size = get_type_size(member->type) * 8;
-            }
+            // Structs in members are already complete
+            size = get_type_size(member->type) * 8;
         }
 
         member->offset = bit_offset >> 3;
@@ -875,6 +841,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
     size = bit_offset - initial_bit_offset;
 
     s->size = size >> 3;
+    s->alignment = max_alignment >> 3;
 
     return size;
 }
@@ -921,8 +888,10 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 
             // Copy the sub struct members
             for (int i = 0; i < sub_member_count; i++) {
-                sub->members[i]->offset += member->offset;
-                s->members[member_index + i] = dup_struct_or_union_member(sub->members[i]);
+                StructOrUnionMember *sub_member = dup_struct_or_union_member(sub->members[i]);
+                sub_member->offset += member->offset;
+                sub_member->bit_field_offset += member->offset * 8;
+                s->members[member_index + i] = sub_member;
             }
 
             member_count += sub_member_count;
diff --git a/wcc.h b/wcc.h
index 734c944..6248a72 100644
--- a/wcc.h
+++ b/wcc.h
@@ -370,6 +370,7 @@ typedef struct struct_or_union_member {
 // Struct & union description
 typedef struct struct_or_union_desc {
     int size;
+    int alignment;
     int is_incomplete;          // Set to 1 if the struct has been used in a member but not yet declared
     int is_packed;
     int is_union;
-- 
2.43.0


From 1833d1d74e6faa629cad1d087f45719b5b543cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 32/93] fix: allow any pointer to be converted to the address
 of a long double

---
 instrrules.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instrrules.c b/instrrules.c
index 283a764..f28737e 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -887,6 +887,7 @@ static void add_pointer_rules(int *ntc) {
     r = add_rule(XRP, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RP5, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_ADDRESS_OF, XRP,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
     // Common rules for IR_ADDRESS_OF and IR_ADDRESS_OF_FROM_GOT
     add_address_of_rule(XRP, XMI,  "%v1q, %vdq", 1);
-- 
2.43.0


From 1ae4c5f4a296261d67bc518bfcbe2b27dd97f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 33/93] fix: access bit-fields in unaligned structs

---
 ir.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir.c b/ir.c
index c897fdd..5327b91 100644
--- a/ir.c
+++ b/ir.c
@@ -975,6 +975,13 @@ void determine_bit_field_params(Value *v, int *offset, int *bit_offset, int *bit
     *offset = v->offset & (~3); // Align to the nearest integer boundary
     *bit_offset = v->bit_field_offset - (*offset << 3);
     *bit_size = v->bit_field_size;
+
+    // A struct inside a packed struct might not be aligned. Start at the byte the field starts
+    // in if the field would otherwise cross the integer boundary.
+    if (*bit_offset + *bit_size > 32) {
+        *offset = v->offset;
+        *bit_offset = v->bit_field_offset - (*offset << 3);
+    }
 }
 
 // Load a bit field by loading the entire integer from a struct and bit shifting
-- 
2.43.0


From d3fe57650dbbb25ce6204bd709686b4d25afc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 34/93] fix: implement the aligned attribute on structs instead
 of packing them

---
 parser.c | 23 +++++++++++++++++------
 types.c  |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/parser.c b/parser.c
index fbb8ffa..94030ac 100644
--- a/parser.c
+++ b/parser.c
@@ -852,8 +852,9 @@ static StructOrUnionMember *add_struct_member(char *identifier, Type *type, Stru
     return member;
 }
 
-// Parse an optional __attribute(packed|aligned). Returns is_packed True/False
-static int parse_struct_or_union_attribute(void) {
+// Parse an optional __attribute(packed|aligned). Returns is_packed True/False and raises
+// the alignment of the struct/union if needed.
+static int parse_struct_or_union_attribute(int *alignment) {
     // Check for optional packed & aligned attributes
 
     int is_packed = 0;
@@ -868,13 +869,21 @@ static int parse_struct_or_union_attribute(void) {
             next();
         }
         else if (cur_token == TOK_ALIGNED) {
-            // Ignore aligned and __aligned__
+            // aligned without a number is the largest alignment of any type
+            int requested_alignment = 16;
             next();
+
+            if (cur_token == TOK_LPAREN) {
+                next();
+                requested_alignment = parse_constant_integer_expression(0)->int_value;
+                consume(TOK_RPAREN, ")");
+            }
+
+            if (requested_alignment > *alignment) *alignment = requested_alignment;
         }
 
         consume(TOK_RPAREN, ")");
         consume(TOK_RPAREN, ")");
-        is_packed = 1;
     }
 
     return is_packed;
@@ -888,7 +897,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
     next();
 
     // Parse __attribute__ that might precede the definition
-    int is_packed1 = parse_struct_or_union_attribute();
+    int alignment = 1;
+    int is_packed1 = parse_struct_or_union_attribute(&alignment);
 
     char *identifier = 0;
     // A typedef identifier be the same as a struct tag, in this context, the lexer
@@ -974,8 +984,9 @@ static Type *parse_struct_or_union_type_specifier(void) {
         consume(TOK_RCURLY, "}");
 
         // Parse __attribute__ that might come after the definition
-        int is_packed2 = parse_struct_or_union_attribute();
+        int is_packed2 = parse_struct_or_union_attribute(&alignment);
         s->is_packed = is_packed1 || is_packed2;
+        s->alignment = alignment;
 
         complete_struct_or_union(s);
         return type;
diff --git a/types.c b/types.c
index 9423ab5..e1f405f 100644
--- a/types.c
+++ b/types.c
@@ -795,7 +795,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     int initial_bit_offset = bit_offset;
     int max_size = 0;
-    int max_alignment = 8;
+    int max_alignment = s->alignment * 8;
 
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
         StructOrUnionMember *member = *pmember;
-- 
2.43.0


From 740a06476d1469a6fba3c75ee048ab3ee72ba939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 35/93] fix: store the result of compound assignments to
 bit-fields in the bit-field

---
 parser.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/parser.c b/parser.c
index 94030ac..ba6304c 100644
--- a/parser.c
+++ b/parser.c
@@ -1705,6 +1705,24 @@ static void check_simple_assignment_types(Value *dst, Value *src) {
     warn_of_incompatible_types_in_assignment(dst->type, src->type);
 }
 
+// Add an instruction to store src1 in the lvalue dst, which may be a bit field
+static void add_store_instruction(Value *dst, Value *src1) {
+    add_parser_instruction(dst->bit_field_size ? IR_SAVE_BIT_FIELD : IR_MOVE, dst, src1, 0);
+}
+
+// Finish a compound assignment or prefix increment/decrement by storing the result in dst.
+// The value of the expression is the value of dst after the store, which may be less wide
+// for a bit field.
+static void store_operation_result(Value *dst) {
+    push(add_convert_type_if_needed(pop(), dst->type));
+    add_store_instruction(dst, vtop());
+
+    if (dst->bit_field_size) {
+        pop();
+        push(load(dup_value(dst)));
+    }
+}
+
 // Add instruction to assign a scalar value in src1 to dst
 static void add_simple_assignment_instruction(Value *dst, Value *src1, int enforce_const) {
     if (!dst->is_lvalue) error("Cannot assign to an rvalue");
@@ -1716,10 +1734,7 @@ static void add_simple_assignment_instruction(Value *dst, Value *src1, int enfor
 
     src1 = add_convert_type_if_needed(src1, dst->type);
 
-    if (dst->bit_field_size)
-        add_parser_instruction(IR_SAVE_BIT_FIELD, dst, src1, 0);
-    else
-        add_parser_instruction(IR_MOVE, dst, src1, 0);
+    add_store_instruction(dst, src1);
 
     push(dst);
 }
@@ -2023,8 +2038,7 @@ Value *prep_comp_assign(void) {
 
 // Finish compound assignment
 static void finish_comp_assign(Value *v1) {
-    push(add_convert_type_if_needed(pop(), v1->type));
-    add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+    store_operation_result(v1);
 }
 
 static void parse_addition(int level, int for_array_subscript) {
@@ -2700,8 +2714,7 @@ static void parse_expression(int level) {
             push(src1);
             push_value_size_constant(src1);
             arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-            push(add_convert_type_if_needed(pop(), v1->type));
-            add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+            store_operation_result(v1);
 
             break;
         }
@@ -2907,7 +2920,7 @@ static void parse_expression(int level) {
                 push_value_size_constant(src1);
                 arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
                 push(add_convert_type_if_needed(pop(), v1->type));
-                add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+                add_store_instruction(v1, vtop());
                 pop(); // Pop the lvalue of the assignment off the stack
                 push(src1); // Push the original rvalue back on the value stack
                 break;
-- 
2.43.0


From 3581444313c6c00d06a22f3505c34458d46ee427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 36/93] fix: promote narrow unsigned bit-fields to int

---
 parser.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index ba6304c..2e68b30 100644
--- a/parser.c
+++ b/parser.c
@@ -145,10 +145,16 @@ static void *pop_void(void) {
     vs++;
 }
 
+// An unsigned bit field is promoted to an int if all its values fit in it
+static Type *promoted_bit_field_type(Value *value) {
+    Type *type = new_type(TYPE_INT);
+    type->is_unsigned = value->type->is_unsigned && value->bit_field_size == 32;
+    return type;
+}
+
 static Value *load_bit_field(Value *src1) {
     Value *dst = new_value();
-    dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = src1->type->is_unsigned;
+    dst->type = promoted_bit_field_type(src1);
     dst->vreg = new_vreg();
     add_parser_instruction(IR_LOAD_BIT_FIELD, dst, src1, 0);
 
@@ -333,8 +339,8 @@ Type *operation_type(Value *src1, Value *src2, int for_ternary) {
         return new_type(TYPE_VOID);
 
     // Otherwise, apply integral promotions
-    src1_type = integer_promote_type(src1_type);
-    src2_type = integer_promote_type(src2_type);
+    src1_type = src1->bit_field_size ? promoted_bit_field_type(src1) : integer_promote_type(src1_type);
+    src2_type = src2->bit_field_size ? promoted_bit_field_type(src2) : integer_promote_type(src2_type);
 
     // They are two integer types
     if (src1_type->type == TYPE_LONG || src2_type->type == TYPE_LONG)
-- 
2.43.0


From cbac3f2359f824f02bda88e7dad93438cea3912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 37/93] fix: static initializers of bit-fields and unions

---
 parser.c | 165 ++++++++++++++++++++++++++++++-------------------------
 types.c  |  24 +++++---
 2 files changed, 106 insertions(+), 83 deletions(-)

diff --git a/parser.c b/parser.c
index 2e68b30..079063e 100644
--- a/parser.c
+++ b/parser.c
@@ -1757,102 +1757,115 @@ static void parse_simple_assignment(int enforce_const) {
     add_simple_assignment_instruction(dst, src1, enforce_const);
 }
 
-static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
-    Symbol *s = dst->global_symbol;
-    if (!s) error("Attempt to add an initializer to value without a global_symbol");
+// Add an element to the initializers of a symbol, preceded by zeroes if there is a gap
+static Initializer *add_initializer_element(Symbol *s, int offset) {
+    if (s->initializers->length) {
+        Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+        int prev_end = prev->offset + prev->size;
+        if (prev_end != offset) {
+            Initializer *zero = wcalloc(1, sizeof(Initializer));
+            zero->offset = prev_end;
+            zero->size = offset - prev_end;
+            append_to_list(s->initializers, zero);
+        }
+    }
+    else if (offset) {
+        Initializer *zero = wcalloc(1, sizeof(Initializer));
+        zero->size = offset;
+        append_to_list(s->initializers, zero);
+    }
 
-    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
+    Initializer *in = wcalloc(1, sizeof(Initializer));
+    in->offset = offset;
+    append_to_list(s->initializers, in);
 
-    int bf_offset;
-    int bf_bit_offset;
-    int bf_bit_size;
-    determine_bit_field_params(dst, &bf_offset, &bf_bit_offset, &bf_bit_size);
-    if (dst->bit_field_size) offset += bf_offset;
+    return in;
+}
 
-    Initializer *in;
-    if (dst->bit_field_size && s->initializers->length && ((Initializer *) s->initializers->elements[s->initializers->length - 1])->offset == offset)
-        // Amend previous initializer for bit field
-        in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+// Add an initializer for a bit field, byte by byte, amending the byte a preceding bit field
+// ended in.
+static void add_bit_field_initializer(Symbol *s, int bit_offset, int bit_size, unsigned int value) {
+    while (bit_size) {
+        int offset = bit_offset >> 3;
+        int shift = bit_offset & 7;
+        int bits = 8 - shift < bit_size ? 8 - shift : bit_size;
 
+        Initializer *in = 0;
+        if (s->initializers->length) in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
 
-    else {
-        if (!dst->bit_field_size && s->initializers->length) {
-            Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
-            if (prev->offset + prev->size != offset) {
-                Initializer *zero = wcalloc(1, sizeof(Initializer));
-                zero->offset = prev->offset + prev->size;
-                zero->size = offset - prev->offset - prev->size;
-                append_to_list(s->initializers, zero);
-            }
+        if (!in || in->offset != offset) {
+            in = add_initializer_element(s, offset);
+            in->size = 1;
+            in->data = wcalloc(1, sizeof(int));
         }
 
-        in = wcalloc(1, sizeof(Initializer));
-        append_to_list(s->initializers, in);
+        *((unsigned char *) in->data) |= (value & ((1 << bits) - 1)) << shift;
+
+        value = value >> bits;
+        bit_offset += bits;
+        bit_size -= bits;
     }
+}
 
-    if (scalar) {
-        scalar = decay_constant_array(scalar);
-        size = get_type_size(dst->type);
+static void add_initializer(Value *dst, int offset, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+    if (!s) error("Attempt to add an initializer to value without a global_symbol");
 
-        if (scalar->is_lvalue || scalar->is_lvalue_in_register || !scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of)
-            error("An initializer for an object with static storage duration must be a constant expression");
+    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
 
-        if (!scalar->is_constant && (size != 8 || is_floating_point_type(dst->type)))
-            error("An address can only be used to initialize a pointer or a long");
+    scalar = decay_constant_array(scalar);
 
-        if (scalar->is_constant) scalar = cast_constant_value(scalar, dst->type);
+    if (scalar->is_lvalue || scalar->is_lvalue_in_register || !scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of)
+        error("An initializer for an object with static storage duration must be a constant expression");
 
-        if (scalar->type->type == TYPE_FLOAT) {
-            in->data = wmalloc(sizeof(float));
-            *((float *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_DOUBLE) {
-            in->data = wmalloc(sizeof(double));
-            *((double *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_LONG_DOUBLE) {
-            in->data = wmalloc(sizeof(long double));
-            *((long double *) in->data) = scalar->fp_value;
-        }
-        else if (dst->bit_field_size) {
-            // Bit field
-            if (!in->data) {
-                in->data = wmalloc(sizeof(int));
-                *((unsigned int *) in->data) = 0;
-            }
+    int size = get_type_size(dst->type);
 
-            unsigned int *pi = (unsigned int *) in->data;
-            unsigned int mask = bf_bit_size == 32 ? -1 : (1 << bf_bit_size) - 1;
-            unsigned int inverted_shifted_mask = ~(mask << bf_bit_offset);
-            (*pi) &= inverted_shifted_mask;
-            (*pi) |= ((scalar->int_value & mask) << bf_bit_offset);
-        }
-        else if (scalar->is_address_of) {
-            in->is_address_of = 1;
-            in->address_of_offset = scalar->address_of_offset;
-            in->symbol = scalar->global_symbol;
-        }
-        else if (scalar->is_string_literal) {
-            in->is_string_literal = 1;
-            in->string_literal_index = scalar->string_literal_index;
-            in->address_of_offset = scalar->address_of_offset;
-        }
-        else {
-            in->data = wmalloc(sizeof(long));
-            *((long *) in->data) = scalar->int_value;
-        }
+    if (!scalar->is_constant && (size != 8 || is_floating_point_type(dst->type)))
+        error("An address can only be used to initialize a pointer or a long");
+
+    if (scalar->is_constant) scalar = cast_constant_value(scalar, dst->type);
+
+    if (dst->bit_field_size) {
+        add_bit_field_initializer(s, dst->bit_field_offset, dst->bit_field_size, scalar->int_value);
+        return;
     }
 
+    Initializer *in = add_initializer_element(s, offset);
     in->size = size;
-    in->offset = offset;
+
+    if (scalar->type->type == TYPE_FLOAT) {
+        in->data = wmalloc(sizeof(float));
+        *((float *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_DOUBLE) {
+        in->data = wmalloc(sizeof(double));
+        *((double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_LONG_DOUBLE) {
+        in->data = wmalloc(sizeof(long double));
+        *((long double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->is_address_of) {
+        in->is_address_of = 1;
+        in->address_of_offset = scalar->address_of_offset;
+        in->symbol = scalar->global_symbol;
+    }
+    else if (scalar->is_string_literal) {
+        in->is_string_literal = 1;
+        in->string_literal_index = scalar->string_literal_index;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else {
+        in->data = wmalloc(sizeof(long));
+        *((long *) in->data) = scalar->int_value;
+    }
 }
 
 // Initialize value with zeroes starting with offset & size.
 // Do it in increments of 8, 4, 2, 1, to minimize the amount of instructions
 static void initialize_with_zeroes(Value *value, int offset, int size) {
-    if (value->global_symbol)
-        add_initializer(value, offset, size, 0);
-    else {
+    // Anything not explicitly initialized in an object with static storage duration is zero
+    if (!value->global_symbol) {
         Value *src1 = new_integral_constant(TYPE_INT, size);
         Value *dst = dup_value(value);
         dst->offset += offset;
@@ -1984,13 +1997,13 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             Value *child = dup_value(value);
             child->global_symbol = value->global_symbol;
             child->offset = it->offset;
-            child->bit_field_offset = it->bit_field_offset;
+            child->bit_field_offset = it->offset * 8 + (it->bit_field_offset & 7);
             child->bit_field_size = it->bit_field_size;
             child->type = it->type;
             child->is_lvalue = 1;
 
             if (value->global_symbol)
-                add_initializer(child, it->offset, 0, src);
+                add_initializer(child, it->offset, src);
 
             else
                 add_simple_assignment_instruction(child, src, 0);
diff --git a/types.c b/types.c
index e1f405f..4ef7fb0 100644
--- a/types.c
+++ b/types.c
@@ -936,6 +936,10 @@ int type_is_modifiable(Type *type) {
     return 1;
 }
 
+static int is_unnamed_bit_field(StructOrUnionMember *member) {
+    return member && member->is_bit_field && !member->identifier;
+}
+
 // Create a new type iterator instance. A type iterator can be used to recurse
 // through all scalars either depth first, or by iterating at a single level.
 TypeIterator *type_iterator(Type *type) {
@@ -943,6 +947,13 @@ TypeIterator *type_iterator(Type *type) {
     append_to_list(allocated_type_iterators, it);
     it->type = type;
 
+    // Skip over any leading unnamed bit fields
+    if (type->type == TYPE_STRUCT_OR_UNION && type->struct_or_union_desc->members) {
+        StructOrUnionMember **members = type->struct_or_union_desc->members;
+        while (is_unnamed_bit_field(members[it->index]) && members[it->index + 1]) it->index++;
+        if (members[it->index]) it->offset = members[it->index]->offset;
+    }
+
     return it;
 }
 
@@ -975,7 +986,10 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
         return it;
     }
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
-        it->index++;
+        // Go to the next member, skipping over unnamed bit fields
+        do it->index++;
+        while (is_unnamed_bit_field(it->type->struct_or_union_desc->members[it->index]));
+
         int is_union = it->type->struct_or_union_desc->is_union;
         if (is_union || !it->type->struct_or_union_desc->members[it->index]) {
             it->offset = it->start_offset + get_type_size(it->type);
@@ -984,10 +998,6 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
 
         it->offset = it->start_offset + it->type->struct_or_union_desc->members[it->index]->offset;
 
-        // Skip over zero size bit fields
-        StructOrUnionMember *member = it->type->struct_or_union_desc->members[it->index];
-        if (member->is_bit_field && !member->bit_field_size) return type_iterator_next(it);
-
         return it;
     }
     else
@@ -1007,7 +1017,7 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
     }
     if (it->type->type == TYPE_ARRAY) {
         TypeIterator *child = type_iterator(it->type->target);
-        child->offset = it->offset;
+        child->offset += it->offset;
         child->start_offset = it->offset;
         child->parent = it;
         return child;;
@@ -1016,7 +1026,7 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
         TypeIterator *child = type_iterator(it->type->struct_or_union_desc->members[it->index]->type);
         child->bit_field_offset = it->type->struct_or_union_desc->members[it->index]->bit_field_offset;
         child->bit_field_size = it->type->struct_or_union_desc->members[it->index]->bit_field_size;
-        child->offset = it->offset;
+        child->offset += it->offset;
         child->start_offset = it->offset;
         child->parent = it;
         return child;
-- 
2.43.0


From 565d147865f7a995059a3596e9d4d9aa24022adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 38/93] fix: zero local objects with bit-fields or unions
 before initializing them

---
 parser.c | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/parser.c b/parser.c
index 079063e..3e336bd 100644
--- a/parser.c
+++ b/parser.c
@@ -41,6 +41,7 @@ static List *allocated_sets;  // Allocated Set instances
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
+static int initialized_object_is_zeroed; // Set if an object has been zeroed before parsing its initializer
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
@@ -1865,7 +1866,7 @@ static void add_initializer(Value *dst, int offset, Value *scalar) {
 // Do it in increments of 8, 4, 2, 1, to minimize the amount of instructions
 static void initialize_with_zeroes(Value *value, int offset, int size) {
     // Anything not explicitly initialized in an object with static storage duration is zero
-    if (!value->global_symbol) {
+    if (!value->global_symbol && !initialized_object_is_zeroed) {
         Value *src1 = new_integral_constant(TYPE_INT, size);
         Value *dst = dup_value(value);
         dst->offset += offset;
@@ -1873,12 +1874,36 @@ static void initialize_with_zeroes(Value *value, int offset, int size) {
     }
 }
 
-// The first member of the union is going to get initialized. If the union size is
-// larger than the size of the first member, zero the upper remainder
-static void initialize_union_with_zeroes(Value *value, int offset) {
-    int union_size = get_type_size(value->type);
-    int first_member_size = get_type_size(value->type->struct_or_union_desc->members[0]->type);
-    if (first_member_size < union_size) initialize_with_zeroes(value, offset + first_member_size, union_size - first_member_size);
+// Do the members of a type share storage, either in a union or in bit fields?
+static int has_shared_storage(Type *type) {
+    if (type->type == TYPE_ARRAY) return has_shared_storage(type->target);
+    if (type->type != TYPE_STRUCT_OR_UNION) return 0;
+    if (type->struct_or_union_desc->is_union) return 1;
+
+    for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++)
+        if ((*pmember)->is_bit_field || has_shared_storage((*pmember)->type)) return 1;
+
+    return 0;
+}
+
+// Parse the initializer of a local object. If members share storage, then the parts that
+// aren't initialized cannot be zeroed one by one, so zero the whole object beforehand.
+static void parse_local_object_initializer(Value *value) {
+    Value *size = 0;
+
+    if (cur_token == TOK_LCURLY && !value->global_symbol && has_shared_storage(value->type)) {
+        // The size isn't known yet if it's an incomplete array
+        size = new_integral_constant(TYPE_INT, 0);
+        add_parser_instruction(IR_ZERO, dup_value(value), size, 0);
+        initialized_object_is_zeroed = 1;
+    }
+
+    parse_initializer(type_iterator(value->type), value, 0);
+
+    if (size) {
+        size->int_value = get_type_size(value->type);
+        initialized_object_is_zeroed = 0;
+    }
 }
 
 // Initialize an array of chars or wchar_t with a string literal
@@ -1989,11 +2014,6 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             // can be assigned directly.
             if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
 
-            // For unions, ensure that the whole union is initialized, even if the
-            // first member is smaller than the others.
-            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union)
-                initialize_union_with_zeroes(value, it->offset);
-
             Value *child = dup_value(value);
             child->global_symbol = value->global_symbol;
             child->offset = it->offset;
@@ -2197,7 +2217,7 @@ static void parse_declaration(void) {
         if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
             error("Attempt to use an incomplete struct or union in an initializer");
 
-        parse_initializer(type_iterator(v->type), v, 0);
+        parse_local_object_initializer(v);
         symbol->type = v->type;
         if (array_declaration) array_declaration->type = v->type;
         base_type = old_base_type;
-- 
2.43.0


From afced6a3a34d383960de6dfa044691c3e0b32926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 39/93] fix: use the address of any va_list that isn't a plain
 variable

---
 functions.c | 59 +++++++++++++++--------------------------------------
 parser.c    |  3 +++
 2 files changed, 20 insertions(+), 42 deletions(-)

diff --git a/functions.c b/functions.c
index e1d6b65..8cec98e 100644
--- a/functions.c
+++ b/functions.c
@@ -975,6 +975,17 @@ static void add_function_vararg_param_moves(Function *function, FunctionParamAll
     ir->label = ldone->label;
 }
 
+// Write a value to va_list. This could be either directly to the stack or to
+// an lvalue in a register.
+static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value *value, int offset) {
+    Value *dst = dup_value(va_list);
+    dst->is_lvalue = 1;
+    dst->offset = offset;
+    dst->type = value->type;
+
+    return insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
+}
+
 // Add code for a va_start() call. The va_list struct, present in src1, has to be
 // populated.
 static void process_function_va_start(Function *function, Tac *ir) {
@@ -989,44 +1000,31 @@ static void process_function_va_start(Function *function, Tac *ir) {
     fp_offset_value->is_constant = 1;
     fp_offset_value->int_value = function->fpa->single_int_register_arg_count * 8;
 
-    Value *dst = dup_value(va_list);
-    dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, fp_offset_value, 0);
+    ir = write_to_va_list(function, ir, va_list, fp_offset_value, 0);
 
     // Set va_list.gp_offset, the offset of the first vararg SSE register
     Value *gp_offset_value = dup_value(fp_offset_value);
     gp_offset_value->int_value = 48 + function->fpa->single_sse_register_arg_count * 16;
-    dst = dup_value(dst);
-    dst->offset = 4;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, gp_offset_value, 0);
+    ir = write_to_va_list(function, ir, va_list, gp_offset_value, 4);
 
     // Set va_list.overflow_arg_area, the address of the first vararg pushed on the stack
-    Value *tmp_dst = dup_value(dst);
+    Value *tmp_dst = new_value();
     tmp_dst->type = make_pointer_to_void();
     tmp_dst->vreg = ++function->vreg_count;
 
-    Value *overflow = dup_value(dst);
+    Value *overflow = new_value();
     overflow->type = make_pointer_to_void();
-    overflow->vreg = 0;
-    overflow->offset = 0;
     overflow->stack_index = OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX;
     ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, overflow, 0);
 
-    dst = dup_value(dst);
-    dst->type = make_pointer_to_void();
-    dst->offset = 8;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, tmp_dst, 0);
+    ir = write_to_va_list(function, ir, va_list, tmp_dst, 8);
 
     // Set va_list.reg_save_area, the address of the register save area
     tmp_dst = dup_value(tmp_dst);
     tmp_dst->vreg = ++function->vreg_count;
     ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, function->register_save_area, 0);
 
-    dst = dup_value(dst);
-    dst->type = make_pointer_to_void();
-    dst->offset = 16;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, tmp_dst, 0);
+    ir = write_to_va_list(function, ir, va_list, tmp_dst, 16);
 }
 
 // Read a value from va_list. This could be either directly from the stack or from
@@ -1060,29 +1058,6 @@ static Tac *read_from_va_list(Function *function, Tac *ir, Value *va_list, Type
     return ir;
 }
 
-// Write a value to va_list. This could be either directly from the stack or from
-// an lvalue in a register.
-static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value *value, int offset) {
-    Value *dst = dup_value(va_list);
-
-    if (va_list->vreg) {
-        // va_list is a pointer in a register. Load it, add the offset to it, then
-        // write to the pointer.
-
-        Value *tmp = dup_value(dst);
-        tmp->is_lvalue = 1;
-        tmp->offset = offset;
-        tmp->type = value->type;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, tmp, value, 0);
-    }
-    else {
-        // Write to the stack
-    dst->type = value->type;
-        dst->offset = offset;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
-    }
-}
-
 // Add instructions that read the FP or GP offset, determine if the type can fit
 // in a register, and if not, jmp to the stack read label fetch_from_stack.
 static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *fetch_from_stack, Value **result_gp_fp_offset) {
diff --git a/parser.c b/parser.c
index 3e336bd..63f1cbc 100644
--- a/parser.c
+++ b/parser.c
@@ -2438,6 +2438,9 @@ static Value *parse_va_list() {
     if (!types_are_compatible(va_list->type, wcc_va_list_array_type) && !types_are_compatible(va_list->type, wcc_va_list_pointer_type))
         error("Expected va_list type as first argument to va_start");
 
+    // Load the address of the va_list, unless it's a variable
+    if (va_list->type->type == TYPE_PTR || va_list->vreg || va_list->offset) va_list = load(va_list);
+
     return va_list;
 }
 
-- 
2.43.0


From 10e59d76e6436ce6a24a3ca4e6fa033bf5c88772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 40/93] fix: fetch each eightbyte of a struct vararg from its
 own register

---
 functions.c | 105 +++++++++++++++++++++++++++++++++-------------------
 ir.c        |  10 ++---
 wcc.h       |   2 +-
 3 files changed, 71 insertions(+), 46 deletions(-)

diff --git a/functions.c b/functions.c
index 8cec98e..976a457 100644
--- a/functions.c
+++ b/functions.c
@@ -1098,40 +1098,65 @@ static int va_arg_size(Type *type) {
         return 8;
 }
 
-// Add instructions to read a vararg from the register save area
-static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *gp_fp_offset, Value *dst) {
+// Add instructions that determine the address in the register save area of the next gp or fp register
+static Tac *add_function_va_arg_register_save_area_address(Function *function, Tac *ir, Type *type, Value *va_list, Value *gp_fp_offset, Value **result) {
     // Read register_save_area into register_save_area register
     Value *register_save_area;
-    ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 16, &register_save_area);
+    ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(type), 16, &register_save_area);
 
     // Add gp_fp_offset to register_save_area
-    Value *ptr = new_value();
-    ptr->type = make_pointer(dst->type);
-    ptr->vreg = ++function->vreg_count;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, ptr, register_save_area, gp_fp_offset);
+    *result = new_value();
+    (*result)->type = make_pointer(type);
+    (*result)->vreg = ++function->vreg_count;
+
+    return insert_instruction_after_from_operation(ir, IR_ADD, *result, register_save_area, gp_fp_offset);
+}
+
+// Add instructions that advance the gp or fp offset in the va_list
+static Tac *add_function_va_arg_offset_advance(Function *function, Tac *ir, Value *va_list, Value *gp_fp_offset, int size, int offset) {
+    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
+    new_gp_fp_offset->vreg = ++function->vreg_count;
+    Value *size_value = new_integral_constant(TYPE_INT, size);
+    size_value->type->is_unsigned = 1;
+    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size_value);
+
+    // Write new offset back to va_list
+    return write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+}
+
+// Add instructions to read a vararg from the register save area
+static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, FunctionParamLocations *fpl, int gp_count, int fp_count, Value *gp_offset, Value *fp_offset, Value *dst) {
+    Value *gp_ptr = 0;
+    Value *fp_ptr = 0;
+    if (gp_count) ir = add_function_va_arg_register_save_area_address(function, ir, type, va_list, gp_offset, &gp_ptr);
+    if (fp_count) ir = add_function_va_arg_register_save_area_address(function, ir, type, va_list, fp_offset, &fp_ptr);
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
-        // Copy memory for struct/union
-        Value *memcpy_ptr = dup_value(ptr);
-        memcpy_ptr->is_lvalue = 1;
-        int size = va_arg_size(type);
-        int splay_offsets = fp_count > 0; // Splay offsets if it's an SSE struct
-        ir = add_memory_copy_with_registers(function, ir, dst, memcpy_ptr, size, splay_offsets);
+        // Copy the struct/union one eightbyte at a time, each from its own register
+        int size = get_type_size(type);
+        int gp_position = 0;
+        int fp_position = 0;
+
+        for (int i = 0; i < fpl->count; i++) {
+            int is_gp = fpl->locations[i].int_register != -1;
+            Value *src1 = dup_value(is_gp ? gp_ptr : fp_ptr);
+            src1->is_lvalue = 1;
+            src1->offset = is_gp ? gp_position : fp_position;
+            if (is_gp) gp_position += 8; else fp_position += 16;
+
+            Value *offsetted_dst = dup_value(dst);
+            offsetted_dst->offset += i * 8;
+
+            int eightbyte_size = size - i * 8 > 8 ? 8 : size - i * 8;
+            ir = add_memory_copy_with_registers(function, ir, offsetted_dst, src1, eightbyte_size);
+        }
     }
     else
         // Read a scalar value from a pointer
-        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, ptr, 0);
-
-    // Add 8 or 16 to gp_fp_offset register
-    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
-    new_gp_fp_offset->vreg = ++function->vreg_count;
-    Value *size = new_integral_constant(TYPE_INT, gp_count * 8 + fp_count * 16);
-    size->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size);
+        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, gp_count ? gp_ptr : fp_ptr, 0);
 
-    // Write new gp offset back to va_list
-    int offset = gp_count ? 0 : 4; // gp_offset or fp_offset
-    ir = write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+    if (gp_count) ir = add_function_va_arg_offset_advance(function, ir, va_list, gp_offset, gp_count * 8, 0);
+    if (fp_count) ir = add_function_va_arg_offset_advance(function, ir, va_list, fp_offset, fp_count * 16, 4);
 
     return ir;
 }
@@ -1139,6 +1164,7 @@ static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac
 // Add instructions to read a vararg from the stack
 static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *type, Value *va_list, Value *dst) {
     int size = va_arg_size(type);
+    int alignment = get_type_alignment(type);
     Value *size_value = new_integral_constant(TYPE_INT, size);
     size_value->type->is_unsigned = 1;
 
@@ -1146,20 +1172,20 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
     Value *overflow_arg_area;
     ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 8, &overflow_arg_area);
 
-    if (type->type == TYPE_LONG_DOUBLE) {
-        // Align overflow arg area to 16 byte boundary, by adding 15 then anding with ~15
+    if (alignment > 8) {
+        // Align overflow arg area, by adding alignment - 1 then anding with ~(alignment - 1)
 
         Value *long_overflow_arg_area = dup_value(overflow_arg_area);
         long_overflow_arg_area->type = new_type(TYPE_LONG);
 
-        // Add 15
+        // Add alignment - 1
         Value *tmp1 = dup_value(long_overflow_arg_area);
         tmp1->vreg = ++function->vreg_count;
-        ir = insert_instruction_after_from_operation(ir, IR_ADD, tmp1, long_overflow_arg_area, new_integral_constant(TYPE_LONG, 15));
+        ir = insert_instruction_after_from_operation(ir, IR_ADD, tmp1, long_overflow_arg_area, new_integral_constant(TYPE_LONG, alignment - 1));
 
         Value *tmp2 = dup_value(long_overflow_arg_area);
         tmp2->vreg = ++function->vreg_count;
-        ir = insert_instruction_after_from_operation(ir, IR_BAND, tmp2, tmp1, new_integral_constant(TYPE_LONG, ~15));
+        ir = insert_instruction_after_from_operation(ir, IR_BAND, tmp2, tmp1, new_integral_constant(TYPE_LONG, -alignment));
         overflow_arg_area = dup_value(tmp2);
         overflow_arg_area->type = make_pointer(dst->type);
     }
@@ -1169,7 +1195,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
         // Copy memory for struct/union
         Value *memcpy_overflow_arg_area = dup_value(overflow_arg_area);
         memcpy_overflow_arg_area->is_lvalue = 1;
-        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, size);
+        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, get_type_size(type));
     }
     else
         // Read a scalar value from a pointer
@@ -1206,13 +1232,14 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     }
 
     // Determine how many gp and fp registers are needed
+    FunctionParamLocations *fpl = 0;
     int gp_count = 0; // Integer registers
     int fp_count = 0; // SSE registers
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
         FunctionParamAllocation *fpa = init_function_param_allocaton("vararg struct");
         add_function_param_to_allocation(fpa, type);
-        FunctionParamLocations *fpl = fpa->param_locations->elements[0];
+        fpl = fpa->param_locations->elements[0];
 
         if (fpl->locations[0].stack_offset != -1) {
             // It's on the stack
@@ -1222,10 +1249,10 @@ static void process_function_va_arg(Function *function, Tac *ir) {
 
         // The arg can be in registers. Although it might end up on the stack
         // if registers have run out.
-        else if (fpl->locations[0].int_register != -1)
-            gp_count = fpl->count;
-        else
-            fp_count = fpl->count;
+        for (int i = 0; i < fpl->count; i++) {
+            if (fpl->locations[i].int_register != -1) gp_count++;
+            else fp_count++;
+        }
     }
     else {
         // A scalar arg is either in int (gp) or sse (fp) registers
@@ -1237,11 +1264,13 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     Value *fetch_from_stack = new_label_dst();
 
     // Check if the arg is in the register save area or on stack
-    Value *gp_fp_offset;
-    ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, fp_count, fetch_from_stack, &gp_fp_offset);
+    Value *gp_offset = 0;
+    Value *fp_offset = 0;
+    if (gp_count) ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, 0, fetch_from_stack, &gp_offset);
+    if (fp_count) ir = add_function_va_arg_in_register_check(function, ir, type, va_list, 0, fp_count, fetch_from_stack, &fp_offset);
 
     // Read from register save area & jump to the done label
-    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, gp_count, fp_count, gp_fp_offset, dst);
+    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, fpl, gp_count, fp_count, gp_offset, fp_offset, dst);
     ir = insert_instruction_after_from_operation(ir, IR_JMP, 0, ldone, 0);
 
     // Add fetch_from_stack label
diff --git a/ir.c b/ir.c
index 5327b91..cb8f2e4 100644
--- a/ir.c
+++ b/ir.c
@@ -895,10 +895,7 @@ Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value
 }
 
 // Copy struct/unions using registers
-//
-// splay_offsets is used when copying a struct with SSE values from the vararg register
-// save area. The SSE registers are saved with an annoying offset of 16 instead of 8.
-Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size, int splay_offsets) {
+Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size) {
     int dst_offset = dst->offset;
     int src1_offset = src1->offset;
 
@@ -915,8 +912,7 @@ Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Val
             offsetted_dst->offset = dst_offset;
             offsetted_dst->type = temp_value->type;
             Value *offsetted_src1 = dup_value(src1);
-            int splayed_offset = (splay_offsets && src1_offset >= 8) ? src1_offset + 8 : src1_offset;
-            offsetted_src1->offset = splayed_offset;
+            offsetted_src1->offset = src1_offset;
             offsetted_src1->type = temp_value->type;
 
             if (src1->is_lvalue && src1->vreg) {
@@ -945,7 +941,7 @@ Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int s
     if (size > 32)
         ir = add_memory_copy_with_memcpy(function, ir, dst, src1, size);
     else
-        ir = add_memory_copy_with_registers(function, ir, dst, src1, size, 0);
+        ir = add_memory_copy_with_registers(function, ir, dst, src1, size);
 
     return ir;
 }
diff --git a/wcc.h b/wcc.h
index 6248a72..feca653 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1096,7 +1096,7 @@ void determine_bit_field_params(Value *v, int *offset, int *bit_offset, int *bit
 void process_bit_fields(Function *function);
 void remove_unused_function_call_results(Function *function);
 void process_struct_and_union_copies(Function *function);
-Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size, int splay_offsets);
+Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 void convert_enums(Function *function);
 void add_PIC_load_and_saves(Function *function);
-- 
2.43.0


From 328dc8619f91188fcf3c7911bee42c58fee8b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:54 +0000
Subject: [PATCH 41/93] fix: copies of structs larger than 32 bytes that are
 members of a struct pointed to

---
 ir.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/ir.c b/ir.c
index cb8f2e4..124dc59 100644
--- a/ir.c
+++ b/ir.c
@@ -860,6 +860,25 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
     ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
 }
 
+// Make a value with the address of a struct/union
+static Value *insert_memcpy_address_after(Function *function, Tac **ir, Value *src) {
+    if (!src->is_lvalue || !src->vreg) return insert_address_of_instruction_after(function, ir, src);
+    if (!src->offset) return src;
+
+    // A pointer in a register to a struct/union that has the copied struct/union as a member
+    Value *pointer = dup_value(src);
+    pointer->type = make_pointer_to_void();
+    pointer->is_lvalue = 0;
+    pointer->offset = 0;
+
+    Value *v = new_value();
+    v->vreg = ++function->vreg_count;
+    v->type = make_pointer_to_void();
+    *ir = insert_instruction_after_from_operation(*ir, IR_ADD, v, pointer, new_integral_constant(TYPE_LONG, src->offset));
+
+    return v;
+}
+
 // Add memcpy calls for struct/union -> struct/union copies
 Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value *src1, int size) {
     int function_call_count = make_function_call_count(function);
@@ -869,17 +888,8 @@ Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value
     ir = insert_instruction_after_from_operation(ir, IR_START_CALL, 0, call_value, 0);
 
     // Load of addresses of src1, dst & make size value
-    Value *src1_value;
-    if (src1->is_lvalue && src1->vreg)
-        src1_value = src1;
-    else
-        src1_value = insert_address_of_instruction_after(function, &ir, src1);
-
-    Value *dst_value;
-    if (dst->is_lvalue && dst->vreg)
-        dst_value = dst;
-    else
-        dst_value = insert_address_of_instruction_after(function, &ir, dst);
+    Value *src1_value = insert_memcpy_address_after(function, &ir, src1);
+    Value *dst_value = insert_memcpy_address_after(function, &ir, dst);
 
     Value *size_value = new_integral_constant(TYPE_LONG, size);
 
-- 
2.43.0


From 60508e75558dc0504dbfb385e816f7c1fff00337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 42/93] fix: members of the struct result of a conditional
 expression

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 63f1cbc..c03d875 100644
--- a/parser.c
+++ b/parser.c
@@ -2515,7 +2515,7 @@ void parse_struct_dot_arrow_expression(void) {
 
     if (cur_token == TOK_DOT) {
         if (vtop()->type->type != TYPE_STRUCT_OR_UNION) error("Can only use . on a struct or union");
-        if (!vtop()->is_lvalue) error("Expected lvalue for struct . operation.");
+        if (!vtop()->is_lvalue && !vtop()->local_index) error("Expected lvalue for struct . operation.");
     }
     else {
         if (!is_pointer_type(vtop()->type)) error("Cannot use -> on a non-pointer");
-- 
2.43.0


From bd3feb2bc3ead76ef9d80d9d67c5bbc43d8f421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 43/93] fix: struct expressions as initializers of struct
 members and array elements

---
 parser.c | 14 ++++++++++----
 types.c  |  6 ++++++
 wcc.h    |  1 +
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index c03d875..4881a68 100644
--- a/parser.c
+++ b/parser.c
@@ -2011,12 +2011,16 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             }
 
             // Recurse to deepest scalar unless the expression is a struct, which
-            // can be assigned directly.
-            if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
+            // can be assigned directly to the first struct of the same type.
+            if (src->type->type != TYPE_STRUCT_OR_UNION)
+                it = type_iterator_dig(it);
+            else
+                while (!is_scalar_type(it->type) && !types_are_compatible_ignore_qualifiers(it->type, src->type))
+                    it = type_iterator_descend(it);
 
             Value *child = dup_value(value);
             child->global_symbol = value->global_symbol;
-            child->offset = it->offset;
+            child->offset = it->type->type == TYPE_STRUCT_OR_UNION ? it->start_offset : it->offset;
             child->bit_field_offset = it->offset * 8 + (it->bit_field_offset & 7);
             child->bit_field_size = it->bit_field_size;
             child->type = it->type;
@@ -2028,7 +2032,9 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             else
                 add_simple_assignment_instruction(child, src, 0);
 
-            return type_iterator_next(it);
+            return it->type->type == TYPE_STRUCT_OR_UNION
+                ? type_iterator_next_after_struct_or_union(it)
+                : type_iterator_next(it);
         }
     }
 
diff --git a/types.c b/types.c
index 4ef7fb0..1e08432 100644
--- a/types.c
+++ b/types.c
@@ -1004,6 +1004,12 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
         panic("Unhandled type in type_iterator_next");
 }
 
+// Go past an entire struct/union, which has been initialized by an expression
+TypeIterator *type_iterator_next_after_struct_or_union(TypeIterator *it) {
+    it->offset = it->start_offset + get_type_size(it->type);
+    return type_iterator_recurse_upwards(it);
+}
+
 // Go down one level into a struct/union/array and return an new iterator
 TypeIterator *type_iterator_descend(TypeIterator *it) {
     if (type_iterator_done(it))
diff --git a/wcc.h b/wcc.h
index feca653..56583f6 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1053,6 +1053,7 @@ int type_is_modifiable(Type *type);
 TypeIterator *type_iterator(Type *type);
 int type_iterator_done(TypeIterator *it);
 TypeIterator *type_iterator_next(TypeIterator *it);
+TypeIterator *type_iterator_next_after_struct_or_union(TypeIterator *it);
 TypeIterator *type_iterator_dig(TypeIterator *it);
 TypeIterator *type_iterator_dig_for_string_literal(TypeIterator *it);
 TypeIterator *type_iterator_descend(TypeIterator *it);
-- 
2.43.0


From 371739d7c5620a73b68fe8e8b4ade2d70b80498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 44/93] fix: string literals that initialize arrays inside of
 an object

---
 parser.c | 41 +++++++++++++++++++++++------------------
 types.c  |  4 ++--
 wcc.h    |  2 +-
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/parser.c b/parser.c
index 4881a68..7abc9d6 100644
--- a/parser.c
+++ b/parser.c
@@ -1906,27 +1906,33 @@ static void parse_local_object_initializer(Value *value) {
     }
 }
 
-// Initialize an array of chars or wchar_t with a string literal
+// Initialize an array of chars or wchar_t with a string literal. The terminating zero is
+// left out if there is no room for it.
 static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, Value *string_literal) {
     StringLiteral *sl = &(string_literals[string_literal->string_literal_index]);
+    Type *array_type = it->type;
+    int array_end = it->offset + get_type_size(array_type);
+    int *int_data = (int *) sl->data;
 
-    if (sl->is_wide_char) {
-        int *int_data = (int *) sl->data;
-        int size = sl->size;
+    int size = sl->size;
+    if (!array_type->array_size)
+        array_type->array_size = size; // Complete an incomplete array
+    else if (size > array_type->array_size)
+        size = array_type->array_size;
 
-        for (int i = 0; i < size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, int_data[i]);
-            it = parse_initializer(it, value, v);
-        }
-    }
-    else {
-        for (int i = 0; i < sl->size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, sl->data[i]);
-            it = parse_initializer(it, value, v);
-        }
+    int is_filled = size == array_type->array_size;
+
+    for (int i = 0; i < size; i++) {
+        Value *v = new_integral_constant(TYPE_INT, sl->is_wide_char ? int_data[i] : sl->data[i]);
+        it = parse_initializer(it, value, v);
     }
 
-    return it;
+    if (is_filled) return it;
+
+    // Zero the rest of the array and go past it
+    initialize_with_zeroes(value, it->offset, array_end - it->offset);
+
+    return type_iterator_next_after_aggregate(it);
 }
 
 // Parse an initializer for a variable with automatic storage. If expression is set, it
@@ -2000,8 +2006,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         }
 
         if (initialize_string_literal) {
-            it = initialize_with_string_literal(it, value, parsed_expression);
-            // Falls through to array size setting code
+            return initialize_with_string_literal(it, value, parsed_expression);
         }
 
         else {
@@ -2033,7 +2038,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
                 add_simple_assignment_instruction(child, src, 0);
 
             return it->type->type == TYPE_STRUCT_OR_UNION
-                ? type_iterator_next_after_struct_or_union(it)
+                ? type_iterator_next_after_aggregate(it)
                 : type_iterator_next(it);
         }
     }
diff --git a/types.c b/types.c
index 1e08432..1993232 100644
--- a/types.c
+++ b/types.c
@@ -1004,8 +1004,8 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
         panic("Unhandled type in type_iterator_next");
 }
 
-// Go past an entire struct/union, which has been initialized by an expression
-TypeIterator *type_iterator_next_after_struct_or_union(TypeIterator *it) {
+// Go past an entire array/struct/union
+TypeIterator *type_iterator_next_after_aggregate(TypeIterator *it) {
     it->offset = it->start_offset + get_type_size(it->type);
     return type_iterator_recurse_upwards(it);
 }
diff --git a/wcc.h b/wcc.h
index 56583f6..013c862 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1053,7 +1053,7 @@ int type_is_modifiable(Type *type);
 TypeIterator *type_iterator(Type *type);
 int type_iterator_done(TypeIterator *it);
 TypeIterator *type_iterator_next(TypeIterator *it);
-TypeIterator *type_iterator_next_after_struct_or_union(TypeIterator *it);
+TypeIterator *type_iterator_next_after_aggregate(TypeIterator *it);
 TypeIterator *type_iterator_dig(TypeIterator *it);
 TypeIterator *type_iterator_dig_for_string_literal(TypeIterator *it);
 TypeIterator *type_iterator_descend(TypeIterator *it);
-- 
2.43.0


From f2e67680c6531e058c1b509c08e25705f8aaf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 45/93] fix: sizeof an expression in the size of a local array

---
 parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser.c b/parser.c
index 7abc9d6..f224132 100644
--- a/parser.c
+++ b/parser.c
@@ -2262,6 +2262,11 @@ int parse_sizeof(void) {
     int saved_function_call_count = function_call_count;
     ir_start = ir = 0;
 
+    // It may be part of a declarator
+    BaseType *saved_base_type = base_type;
+    char *saved_cur_type_identifier = cur_type_identifier;
+    base_type = 0;
+
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
         next();
@@ -2276,6 +2281,9 @@ int parse_sizeof(void) {
     else
         expression = parse_expression_and_pop(TOK_INC);
 
+    base_type = saved_base_type;
+    cur_type_identifier = saved_cur_type_identifier;
+
     ir_start = saved_ir_start;
     ir = saved_ir;
     function_call_count = saved_function_call_count;
-- 
2.43.0


From 21836eeeeb5cbd399775adba2897faea582cc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 46/93] fix: conversions of functions and pointers to functions
 to other types

---
 instrrules.c | 6 +++---
 parser.c     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index f28737e..274142b 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1710,9 +1710,9 @@ void define_rules(void) {
     r = add_rule(0, IR_LOAD_LONG_DOUBLE, MLD5, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "fldt %v1L");
 
     // Function pointers
-    r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP1, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP2, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
diff --git a/parser.c b/parser.c
index f224132..1cd3944 100644
--- a/parser.c
+++ b/parser.c
@@ -2871,7 +2871,7 @@ static void parse_expression(int level) {
                             push(cast_constant_value(v1, dst_type));
                     }
                     else if (dst_type->type != TYPE_VOID && v1->type != dst_type) {
-                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, dst_type);
+                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, make_pointer_to_void());
 
                         // Add move instruction
                         Value *dst = new_value();
-- 
2.43.0


From 64ba0ffead7d265495dfe8ec533770bf28f95b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 47/93] fix: add the missing instruction rules for pointers to
 long double

---
 instrrules.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index 274142b..1d4f4b9 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1265,8 +1265,10 @@ static void add_pointer_add_rules(void) {
         add_pointer_plus_int_rule(i, RU4, 10, X_ADD, 0);
     }
 
-    for (int i = CI1; i <= CI4; i++)
+    for (int i = CI1; i <= CI4; i++) {
         add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, XRP, i, XRP, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
+        add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, RP5, i, RP5, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
+    }
 }
 
 static void add_sub_rule(int dst, int src1, int src2, int cost, char *mov_template, char *sign_extend_template, char *sub_template) {
@@ -1287,6 +1289,7 @@ static void add_sub_rules(void) {
         if (i != 2) add_sub_rule(XRU, XRU,     CU1 + i, 10, "mov%s %v1, %vd",  0, "sub%s $%v1, %vd");
                     add_sub_rule(XRP, XRP,     CI1 + i, 10, "movq %v1q, %vdq", 0, "subq $%v1q, %vdq");
                     add_sub_rule(RI4, XRP,     CI1 + i, 10, "movq %v1q, %vdq", 0, "subq $%v1q, %vdq"); // A pointer difference is a signed int
+                    add_sub_rule(RI4, RP5,     CI1 + i, 10, "movq %v1q, %vdq", 0, "subq $%v1q, %vdq"); // A pointer difference is a signed int
         if (i != 2) add_sub_rule(XRP, XRP,     CU1 + i, 10, "movq %v1q, %vdq", 0, "subq $%v1q, %vdq");
                     add_sub_rule(RP5, RP5,     CI1 + i, 10, "movq %v1q, %vdq", 0, "subq $%v1q, %vdq");
         if (i != 2) add_sub_rule(RP5, RP5,     CU1 + i, 10, "movq %v1q, %vdq", 0, "subq $%v1q, %vdq");
@@ -1603,6 +1606,8 @@ void define_rules(void) {
 
     r = add_rule(XRP, IR_MOVE, CI4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_MOVE, CU4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, CI4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq");
+    r = add_rule(RP5, IR_MOVE, CU4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq");
 
     for (int dst = RP1; dst <= RP5; dst++) for (int src = RP1; src <= RP5; src++) add_mov_rule(dst, src, 0, 0);
     for (int dst = RI1; dst <= RI4; dst++) for (int src = RP1; src <= RP5; src++) add_mov_rule(dst, src, 0, 0);
@@ -1613,6 +1618,8 @@ void define_rules(void) {
     r = add_rule(RP4, IR_MOVE, MI4, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(MI4, IR_MOVE, XRP, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MU4, IR_MOVE, XRP, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(MI4, IR_MOVE, RP5, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
+    r = add_rule(MU4, IR_MOVE, RP5, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(XRP, IR_MOVE, MPV, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MPV, IR_MOVE, XRP, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MPV, IR_MOVE, XRI, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
@@ -1629,6 +1636,7 @@ void define_rules(void) {
     r = add_rule(XRI,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RPF,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1640,7 +1648,9 @@ void define_rules(void) {
     r = add_rule(XRU,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1703,6 +1713,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, RP2, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP3, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP4, 2);                                                          add_int_function_call_arg_op(r);
+    r = add_rule(0, IR_ARG, CI4, RP5, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RPF, 2);                                                          add_int_function_call_arg_op(r);
 
     // Long double return rules
@@ -1713,11 +1724,13 @@ void define_rules(void) {
     r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP1, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP2, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP3, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP4, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
+    r = add_rule(RPF, IR_MOVE, RP5, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(MPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, MPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, FUN, 0, 2); add_op(r, X_LEA, DST, SRC1, 0, "leaq %v1q, %vdq");
@@ -1731,10 +1744,12 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
@@ -1756,6 +1771,12 @@ void define_rules(void) {
         for (int j = 0; j < 4; j++)
             add_int_comparison_rules(&ntc, 1, RP1 + i, RP1 + j, cmpq_vv);
 
+    add_int_comparison_rules(&ntc, 1, RP5, RP5, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP4, RP5, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RP5, RP4, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RP5, XCU, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RI4, RP5, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, RP5, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RP5, RU4, cmpq_vv);
+
     add_int_comparison_rules(&ntc, 1, RPF, RPF, "cmpq %v2q, %v1q");
 
     // Note the RU4, CI3 oddball. cmpq can only be done on imm32, which has to be signed. If CU4 were allowed, then 0x80000000 and higher would
-- 
2.43.0


From 2f8499cd16b75219ba9290e8a68445529af63404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 48/93] fix: scale pointer offsets in 64 bits

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 1cd3944..f66efa0 100644
--- a/parser.c
+++ b/parser.c
@@ -2116,7 +2116,7 @@ static void parse_addition(int level, int for_array_subscript) {
     int factor = get_type_inc_dec_size(vs[1]->type);
 
     if (factor > 1) {
-        push_integral_constant(TYPE_INT, factor);
+        push_integral_constant(TYPE_LONG, factor);
         arithmetic_operation(IR_MUL, 0);
     }
 
@@ -2139,7 +2139,7 @@ static void parse_subtraction(int level) {
 
     if (factor > 1) {
         if (!src2_is_pointer) {
-            push_integral_constant(TYPE_INT, factor);
+            push_integral_constant(TYPE_LONG, factor);
             arithmetic_operation(IR_MUL, 0);
         }
 
-- 
2.43.0


From a6fb2ec1fa080c306a4c00727d7c271c599bf1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 49/93] fix: an array lvalue addressed by a register decays to
 that register, not to the address of where it was loaded from

---
 parser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index f66efa0..f434bd1 100644
--- a/parser.c
+++ b/parser.c
@@ -193,7 +193,16 @@ static Value *load(Value *src1) {
             dst->local_index = 0;
             dst->global_symbol = 0;
             dst->type = decay_array_to_pointer(dst->type);
-            add_parser_instruction(IR_ADDRESS_OF, dst, src1, 0);
+            if (src1->vreg && src1->is_lvalue) {
+                // The register already has the address
+                Value *address = dup_value(src1);
+                address->type = dst->type;
+                address->is_lvalue = 0;
+                address->offset = 0;
+                add_parser_instruction(IR_MOVE, dst, address, 0);
+            }
+            else
+                add_parser_instruction(IR_ADDRESS_OF, dst, src1, 0);
 
             // If it's a pointer in a register with an offset, the offset needs to be
             // added to it.
-- 
2.43.0


From 75815b457ed1680ee95b4f06aaf2ba608d115ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:51 +0000
Subject: [PATCH 50/93] fix: accept functions in abstract declarators

---
 parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index f434bd1..67cee33 100644
--- a/parser.c
+++ b/parser.c
@@ -789,10 +789,17 @@ Type *parse_direct_declarator(void) {
     }
 
     else if (cur_token == TOK_LPAREN) {
-        // (subtype)
         next();
-        type = concat_types(type, parse_declarator());
-        consume(TOK_RPAREN, ")");
+
+        if (cur_token == TOK_RPAREN || (cur_token_is_type() && cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_ATTRIBUTE)) {
+            // Parameters of a function in an abstract declarator, e.g. int (void)
+            type = parse_function_type();
+        }
+        else {
+            // (subtype)
+            type = concat_types(type, parse_declarator());
+            consume(TOK_RPAREN, ")");
+        }
     }
 
     while (1) {
-- 
2.43.0


From 0731d2d7ced4e80b85bc159729d80b8a9ebdb9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 51/93] fix: accept type specifiers in any order

---
 parser.c | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/parser.c b/parser.c
index 67cee33..32614d2 100644
--- a/parser.c
+++ b/parser.c
@@ -470,24 +470,8 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_INT:      next(); seen_int++;      type = new_type(TYPE_INT); break;
             case TOK_FLOAT:    next(); seen_float++;    type = new_type(TYPE_FLOAT); break;
             case TOK_DOUBLE:   next(); seen_double++;   type = new_type(TYPE_DOUBLE); break;
-            case TOK_SHORT:
-                next();
-                if (cur_token == TOK_INT) next();
-                seen_short++;
-                type = new_type(TYPE_SHORT);
-                break;
-            case TOK_LONG:
-                next();
-                if (cur_token == TOK_DOUBLE)   {
-                    next();
-                    seen_long_double++;
-                    type = new_type(TYPE_LONG_DOUBLE);
-                }
-                else {
-                    type = new_type(TYPE_LONG);
-                    seen_long++;
-                }
-                break;
+            case TOK_SHORT:    next(); seen_short++;    type = new_type(TYPE_SHORT); break;
+            case TOK_LONG:     next(); seen_long++;     type = new_type(TYPE_LONG); break;
             case TOK_STRUCT:
                 seen_struct++;
                 type = dup_type(parse_struct_or_union_type_specifier());
@@ -504,7 +488,7 @@ static BaseType *parse_declaration_specifiers() {
                 // If a typedef type has been encountered by the lexer and a type already
                 // exists, then it's not a typedef type, but a redefinition of a typedef
                 // type.
-                if (!type) {
+                if (!type && !seen_signed && !seen_unsigned) {
                     seen_typedef++;
                     type = dup_type(cur_lexer_type);
                     next();
@@ -531,12 +515,25 @@ static BaseType *parse_declaration_specifiers() {
         }
     }
 
+    // The specifiers can be in any order
+    if (seen_double == 1 && seen_long == 1) {
+        seen_double = 0;
+        seen_long = 0;
+        seen_long_double = 1;
+        type = new_type(TYPE_LONG_DOUBLE);
+    }
+
     if (seen_long == 2) seen_long = 1;
     else if (seen_long > 2) error("Too many longs in type specifier");
+
     if (seen_int && seen_long) {
-        seen_int = 0;
+        seen_int--;
         type = new_type(TYPE_LONG);
     }
+    else if (seen_int && seen_short) {
+        seen_int--;
+        type = new_type(TYPE_SHORT);
+    }
 
     int data_type_sum =
         seen_void + seen_char + seen_short + seen_int + seen_long +
-- 
2.43.0


From fb92f9e1d3f7ed9910ad2d287d4ff0d65c308003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 52/93] fix: keep a label on the first statement of a function
 after the parameter moves

---
 functions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.c b/functions.c
index 976a457..c651079 100644
--- a/functions.c
+++ b/functions.c
@@ -1317,6 +1317,9 @@ void add_function_param_moves(Function *function, char *identifier) {
         ir->next = new_instruction(IR_NOP);
         ir->next->prev = ir;
     }
+    else if (ir->next->label)
+        // Instructions inserted below must not end up behind the label of the first statement
+        insert_instruction_after_from_operation(ir, IR_NOP, 0, 0, 0);
 
     ir = function->ir->next;
 
-- 
2.43.0


From c421a9802cc3b7888533f41dc86883262feebf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 53/93] fix: scoping of tags, enumerators and members named
 like typedefs

---
 parser.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/parser.c b/parser.c
index 32614d2..97ab519 100644
--- a/parser.c
+++ b/parser.c
@@ -1014,7 +1014,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
     else {
         // Struct/union use
 
-        Type *type = find_struct_or_union(identifier, is_union, 1);
+        // A declaration with just the tag, e.g. struct s; declares it in the current scope
+        Type *type = find_struct_or_union(identifier, is_union, cur_token != TOK_SEMI);
         if (type) return type; // Found a complete or incomplete struct
 
         // Didn't find a struct, but that's ok, create a incomplete one
@@ -1041,25 +1042,28 @@ static Type *parse_enum_type_specifier(void) {
     // sees a typedef tag, but really it's a struct tag.
     if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
         identifier = parser_wstrdup(cur_identifier);
-
-        Tag *tag = new_tag(parser_wstrdup(cur_identifier));
-        tag->type = type;
-        type->tag = tag;
-
         next();
     }
-    else
-        type->tag = 0;
+
+    type->tag = 0;
 
     if (cur_token == TOK_LCURLY) {
         // Enum definition
 
+        if (identifier) {
+            Tag *tag = new_tag(identifier);
+            tag->type = type;
+            type->tag = tag;
+        }
+
         consume(TOK_LCURLY, "{");
 
         int member_count = 0;
         int value = 0;
 
         while (cur_token != TOK_RCURLY) {
+            // An enumerator can redeclare a typedef from an outer scope
+            if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
             expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
             next();
@@ -1086,6 +1090,14 @@ static Type *parse_enum_type_specifier(void) {
     else {
         // Enum use
 
+        if (cur_token == TOK_SEMI && !lookup_tag(identifier, cur_scope, 0)) {
+            // A declaration with just the tag, e.g. enum e; declares it in the current scope
+            Tag *tag = new_tag(identifier);
+            tag->type = type;
+            type->tag = tag;
+            return type;
+        }
+
         Type *type = find_enum(identifier);
         if (!type) error("Unknown enum %s", identifier);
         return type;
@@ -2558,6 +2570,8 @@ void parse_struct_dot_arrow_expression(void) {
     int is_dot = cur_token == TOK_DOT;
 
     next();
+    // Members have their own namespace, so a member may have the name of a typedef
+    if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
     consume(TOK_IDENTIFIER, "identifier");
 
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
-- 
2.43.0


From 26f43ed4d011226666bd5a843f716c77d458fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 54/93] fix: declare functions implicitly on a call

---
 parser.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 97ab519..8289706 100644
--- a/parser.c
+++ b/parser.c
@@ -2717,6 +2717,20 @@ static Value *parse_statement_expression(void) {
     return result;
 }
 
+// Calling an undeclared function declares it in the current block as extern int identifier();
+static Symbol *implicitly_declare_function(char *identifier) {
+    Type *type = new_type(TYPE_FUNCTION);
+    type->target = new_type(TYPE_INT);
+    type->function->is_paramless = 1;
+
+    Symbol *symbol = new_symbol(identifier);
+    symbol->type = type;
+    symbol->linkage = LINKAGE_EXPLICIT_EXTERNAL;
+    symbol->global_identifier = identifier;
+
+    return symbol;
+}
+
 // Parse an expression using top-down precedence climbing parsing
 // https://en.cppreference.com/w/c/language/operator_precedence
 // https://en.wikipedia.org/wiki/Operator-precedence_parser#Precedence_climbing_method
@@ -2952,10 +2966,15 @@ static void parse_expression(int level) {
                 else {
                     // Look up symbol
                     Symbol *symbol = lookup_symbol(cur_identifier, cur_scope, 1);
-                    if (!symbol) error("Unknown symbol \"%s\"", cur_identifier);
+                    char *identifier = symbol ? 0 : parser_wstrdup(cur_identifier);
 
                     next();
 
+                    if (!symbol) {
+                        if (cur_token != TOK_LPAREN || cur_scope == global_scope) error("Unknown symbol \"%s\"", identifier);
+                        symbol = implicitly_declare_function(identifier);
+                    }
+
                     if (symbol->is_enum_value)
                         push_integral_constant(TYPE_INT, symbol->value);
                     else
-- 
2.43.0


From 5e6759c67f6e8e72fded67ec780fc205479f7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 55/93] fix: reject storage classes in members, type names and
 typedefs

---
 constexpr.c |  2 +-
 parser.c    | 15 ++++++++++++---
 wcc.h       |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index d821368..5efc0a7 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -433,7 +433,7 @@ Value *parse_constant_expression(int level) {
             next();
             if (cur_token_is_type()) {
                 // Cast
-                Type *type = parse_type_name();
+                Type *type = parse_abstract_type_name();
                 consume(TOK_RPAREN, ")");
                 value = decay_constant_array(parse_constant_expression(TOK_INC));
                 if (!is_address(value)) check_is_constant(value);
diff --git a/parser.c b/parser.c
index 8289706..a0fbec3 100644
--- a/parser.c
+++ b/parser.c
@@ -825,6 +825,13 @@ Type *parse_direct_declarator(void) {
     }
 }
 
+// Parse a type name in a cast, sizeof or va_arg
+Type *parse_abstract_type_name(void) {
+    Type *type = parse_type_name();
+    if (type->storage_class != SC_NONE) error("A type name cannot have a storage class");
+    return type;
+}
+
 Type *parse_type_name(void) {
     BaseType *base_type = parse_declaration_specifiers();
     base_type->type->storage_class = base_type->storage_class;
@@ -944,6 +951,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
         int member_count = 0;
         while (cur_token != TOK_RCURLY) {
             BaseType *member_base_type = parse_declaration_specifiers();
+            if (member_base_type->storage_class != SC_NONE) error("A struct/union member cannot have a storage class");
 
             int done_parsing_members = 0;
             while (!done_parsing_members) {
@@ -1110,6 +1118,7 @@ void parse_typedef(void) {
     next();
 
     BaseType *base_type_with_storage_class = parse_declaration_specifiers(0);
+    if (base_type_with_storage_class->storage_class != SC_NONE) error("Duplicate storage class specifiers");
     Type *base_type = base_type_with_storage_class->type;
 
     while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
@@ -2297,7 +2306,7 @@ int parse_sizeof(void) {
         next();
 
         if (cur_token_is_type())
-            type = parse_type_name();
+            type = parse_abstract_type_name();
         else
             expression = parse_expression_and_pop(TOK_COMMA);
 
@@ -2531,7 +2540,7 @@ static void parse_va_arg() {
     // Get the second arg, which must be a type
     consume(TOK_COMMA, ",");
     cur_type_identifier = 0;
-    Type *type = parse_type_name();
+    Type *type = parse_abstract_type_name();
 
     if (type->type == TYPE_ARRAY) error("Cannot use an array in va_arg");
 
@@ -2889,7 +2898,7 @@ static void parse_expression(int level) {
 
                 else if (cur_token_is_type()) {
                     // Cast
-                    Type *dst_type = parse_type_name();
+                    Type *dst_type = parse_abstract_type_name();
                     consume(TOK_RPAREN, ")");
 
                     parse_expression(TOK_INC);
diff --git a/wcc.h b/wcc.h
index 013c862..53a3851 100644
--- a/wcc.h
+++ b/wcc.h
@@ -976,6 +976,7 @@ void check_minus_operation_type(Value *src1, Value *src2);
 void check_ternary_operation_types(Value *switcher, Value *src1, Value *src2);
 Value *load_constant(Value *cv);
 Type *parse_type_name(void);
+Type *parse_abstract_type_name(void);
 void parse_typedef(void);
 Type *find_struct_or_union(char *identifier, int is_union, int recurse);
 StructOrUnionMember *lookup_struct_or_union_member(Type *type, char *identifier);
-- 
2.43.0


From 4c354c6ce6eaf605c9c6dca35ccc519f0115aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 56/93] fix: reject redefined tags, enumerators, typedefs and
 parameters

---
 parser.c | 25 ++++++++++++++++++++-----
 wcc.h    |  1 +
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/parser.c b/parser.c
index a0fbec3..2ceb967 100644
--- a/parser.c
+++ b/parser.c
@@ -942,10 +942,12 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
         Type *type = 0;
         if (identifier) type = find_struct_or_union(identifier, is_union, 0);
+        if (type && !type->struct_or_union_desc->is_incomplete) error("Redefinition of %s", identifier);
         if (!type) type = new_struct_or_union(identifier);
 
         StructOrUnion *s = type->struct_or_union_desc;
         s->is_union = is_union;
+        s->is_incomplete = 1; // Until it's completed below
 
         // Loop over members
         int member_count = 0;
@@ -1059,7 +1061,12 @@ static Type *parse_enum_type_specifier(void) {
         // Enum definition
 
         if (identifier) {
-            Tag *tag = new_tag(identifier);
+            Tag *tag = lookup_tag(identifier, cur_scope, 0);
+            if (tag && tag->type->type != TYPE_ENUM) error("Tag %s is the wrong kind of tag", identifier);
+            if (tag && tag->is_defined) error("Redefinition of %s", identifier);
+
+            tag = new_tag(identifier);
+            tag->is_defined = 1;
             tag->type = type;
             type->tag = tag;
         }
@@ -1074,6 +1081,7 @@ static Type *parse_enum_type_specifier(void) {
             if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
             expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
+            if (lookup_symbol(enum_value_identifier, cur_scope, 0)) error("Identifier redeclared: %s", enum_value_identifier);
             next();
             if (cur_token == TOK_EQ) {
                 next();
@@ -1128,6 +1136,9 @@ void parse_typedef(void) {
 
         parse_attributes();
 
+        Symbol *original_symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+        if (original_symbol && original_symbol->type->type != TYPE_TYPEDEF) error("Identifier redeclared: %s", cur_type_identifier);
+
         if (all_typedefs_count == MAX_TYPEDEFS) panic_with_line_number("Exceeded max typedefs");
         Typedef *td = wcalloc(1, sizeof(Typedef));
         td->identifier = cur_type_identifier;
@@ -3622,10 +3633,14 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
     if (cur_token == TOK_LCURLY) {
         is_definition = 1;
 
-        // Ensure parameters have identifiers
-        for (int i = 0; i < symbol->function->type->function->param_count; i++)
-            if (!symbol->function->type->function->param_identifiers->elements[i])
-                error("Missing identifier for parameter in function definition");
+        // Ensure parameters have unique identifiers
+        List *identifiers = symbol->function->type->function->param_identifiers;
+        for (int i = 0; i < symbol->function->type->function->param_count; i++) {
+            if (!identifiers->elements[i]) error("Missing identifier for parameter in function definition");
+
+            for (int j = 0; j < i; j++)
+                if (!strcmp(identifiers->elements[i], identifiers->elements[j])) error("Identifier redeclared: %s", identifiers->elements[i]);
+        }
 
         // Reset globals for a new function
         vreg_count = 0;
diff --git a/wcc.h b/wcc.h
index 53a3851..e3edad1 100644
--- a/wcc.h
+++ b/wcc.h
@@ -209,6 +209,7 @@ typedef struct symbol {
 typedef struct tag {
     Type *type;                 // Type
     char *identifier;           // Identifier
+    int is_defined;             // For enums: the enumerators have been seen
 } Tag;
 
 typedef struct scope {
-- 
2.43.0


From ce068f04041dd0363c15b1d0a7df6577ec2a8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 57/93] fix: redeclarations: linkage, composite types and
 compatibility

---
 codegen.c |  7 ++++++-
 parser.c  | 63 ++++++++++++++++++++++++++++++++-----------------------
 types.c   | 15 ++++++++++++-
 wcc.h     |  1 +
 4 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/codegen.c b/codegen.c
index 382d96f..1e1d724 100644
--- a/codegen.c
+++ b/codegen.c
@@ -796,9 +796,14 @@ static void output_symbol(Symbol *symbol) {
 
     if ((symbol->linkage == LINKAGE_INTERNAL || symbol->linkage == LINKAGE_IMPLICIT_EXTERNAL) && !symbol->initializers) {
         if (elf_section != SEC_TEXT) { fprintf(f, "    .text\n"); elf_section = SEC_TEXT; }
+
+        // A tentative definition of an array of unknown size has one element
+        Type *type = symbol->type;
+        int size = type->type == TYPE_ARRAY && !type->array_size ? get_type_size(type->target) : get_type_size(type);
+
         fprintf(f, "    .comm   %s,%d,%d\n",
             symbol->global_identifier,
-            get_type_size(symbol->type),
+            size,
             get_type_alignment(symbol->type));
     }
 
diff --git a/parser.c b/parser.c
index 2ceb967..65e7728 100644
--- a/parser.c
+++ b/parser.c
@@ -2220,7 +2220,18 @@ static void parse_declaration(void) {
 
     if (!cur_type_identifier) error("Expected an identifier");
 
-    if (lookup_symbol(cur_type_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier);
+    int has_linkage = base_type->storage_class == SC_EXTERN || type->type == TYPE_FUNCTION;
+
+    if (type->type == TYPE_FUNCTION && base_type->storage_class != SC_EXTERN && base_type->storage_class != SC_NONE)
+        error("Invalid storage class for function %s", cur_type_identifier);
+
+    Symbol *original_symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+    if (original_symbol) {
+        // Only identifiers with linkage can be redeclared
+        if (!has_linkage || original_symbol->linkage != LINKAGE_EXPLICIT_EXTERNAL)
+            error("Identifier redeclared: %s", cur_type_identifier);
+        if (!is_compatible_redeclaration(type, original_symbol->type)) error("Incompatible types");
+    }
 
     if (base_type->storage_class == SC_STATIC) {
         symbol = new_symbol(cur_type_identifier);
@@ -2235,11 +2246,11 @@ static void parse_declaration(void) {
 
         append_to_list(function->static_symbols, symbol);
     }
-    else if (base_type->storage_class == SC_EXTERN || type->type == TYPE_FUNCTION) {
+    else if (has_linkage) {
         // Add the identifier to the local scope, but give it a global identifier
         // without adding any linkage
-        symbol = new_symbol(cur_type_identifier);
-        symbol->type = dup_type(type);
+        symbol = original_symbol ? original_symbol : new_symbol(cur_type_identifier);
+        symbol->type = original_symbol ? composite_type(type, original_symbol->type) : dup_type(type);
         symbol->linkage = LINKAGE_EXPLICIT_EXTERNAL;
         symbol->global_identifier = cur_type_identifier;
     }
@@ -2264,6 +2275,8 @@ static void parse_declaration(void) {
     }
 
     if (cur_token == TOK_EQ) {
+        if (has_linkage) error("%s has both extern and an initializer", symbol->identifier);
+
         push_symbol(symbol);
         BaseType *old_base_type = base_type;
         base_type = 0;
@@ -2280,7 +2293,7 @@ static void parse_declaration(void) {
     }
 
     // If it's not initialized and incomplete, bail.
-    else if (is_incomplete_type(symbol->type))
+    else if (!has_linkage && is_incomplete_type(symbol->type))
         error("Storage size is unknown");
 }
 
@@ -3683,10 +3696,6 @@ int redefined_symbol_linkage(int linkage1, int linkage2, char *cur_type_identifi
             (linkage1 == LINKAGE_IMPLICIT_EXTERNAL && linkage2 == LINKAGE_IMPLICIT_EXTERNAL))
         return LINKAGE_IMPLICIT_EXTERNAL;
 
-    // Otherwise if either is explicit external, the result is an explicit external
-    if (linkage1 == LINKAGE_EXPLICIT_EXTERNAL && linkage2 == LINKAGE_EXPLICIT_EXTERNAL)
-        return LINKAGE_EXPLICIT_EXTERNAL;
-
     error("Mismatching linkage in redeclared identifier %s", cur_type_identifier);
 }
 
@@ -3750,33 +3759,35 @@ void parse(void) {
                     int is_definition = parse_function(type, linkage, symbol, original_symbol);
                     if (is_definition) break; // No more declarations are possible, break out of comma parsing loop
                 }
-                else if (cur_token == TOK_EQ) {
-                    if (original_symbol && original_symbol->initializers) error("Redefinition of %s", cur_type_identifier);
-
-                    BaseType *old_base_type = base_type;
-                    base_type = 0;
-                    next();
-                    Value *v = make_global_symbol_value(symbol);
-
-                    if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
-                        error("Attempt to use an incomplete struct or union in an initializer");
-
-                    parse_initializer(type_iterator(v->type), v, 0);
-                    symbol->type = v->type;
-                    base_type = old_base_type;
-                }
-
                 else {
                     // Non-function
 
                     if (original_symbol) {
                         // Merge types if it's a redeclaration
-                        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
+                        if (!is_compatible_redeclaration(type, original_symbol->type)) error("Incompatible types");
                         symbol->type = composite_type(type, original_symbol->type);
                     }
                     else
                         symbol->type = type;
 
+                    if (cur_token == TOK_EQ) {
+                        if (original_symbol && original_symbol->initializers) error("Redefinition of %s", cur_type_identifier);
+
+                        // An initializer makes it a definition, even with extern
+                        if (symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL) symbol->linkage = LINKAGE_IMPLICIT_EXTERNAL;
+
+                        BaseType *old_base_type = base_type;
+                        base_type = 0;
+                        next();
+                        Value *v = make_global_symbol_value(symbol);
+
+                        if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
+                            error("Attempt to use an incomplete struct or union in an initializer");
+
+                        parse_initializer(type_iterator(v->type), v, 0);
+                        symbol->type = v->type;
+                        base_type = old_base_type;
+                    }
                 }
 
                 parse_attributes();
diff --git a/types.c b/types.c
index 1993232..8101fad 100644
--- a/types.c
+++ b/types.c
@@ -620,7 +620,7 @@ static int functions_are_compatible(Type *type1, Type *type2, StrMap *seen_tags)
 
     // Check params match
     for (int i = 0; i < type1->function->param_count; i++) {
-        if (!types_are_compatible(type1->function->param_types->elements[i], type2->function->param_types->elements[i]))
+        if (!types_are_compatible_ignore_qualifiers(type1->function->param_types->elements[i], type2->function->param_types->elements[i]))
             return 0;
     }
 
@@ -686,6 +686,19 @@ static int recursive_types_are_compatible(Type *type1, Type *type2, StrMap *seen
     return (type1->type == type2->type);
 }
 
+// Check two declarations of the same identifier have compatible types. This is stricter than types_are_compatible: signedness
+// and the qualifiers of pointer targets must match and arrays aren't pointers.
+int is_compatible_redeclaration(Type *type1, Type *type2) {
+    if (type1->type != type2->type && !is_integer_type(type1) && !is_integer_type(type2)) return 0;
+    if (type1->is_const != type2->is_const) return 0;
+    if (type1->is_unsigned != type2->is_unsigned) return 0;
+
+    if (type1->type == type2->type && (type1->type == TYPE_PTR || type1->type == TYPE_ARRAY))
+        if (!is_compatible_redeclaration(type1->target, type2->target)) return 0;
+
+    return types_are_compatible(type1, type2);
+}
+
 int types_are_compatible(Type *type1, Type *type2) {
     StrMap *seen_tags = new_strmap();
     int result = recursive_types_are_compatible(type1, type2, seen_tags, 1);
diff --git a/wcc.h b/wcc.h
index e3edad1..528b940 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1044,6 +1044,7 @@ int get_type_size(Type *type);
 int get_type_alignment(Type *type);
 int type_eq(Type *type1, Type *type2);
 Type *apply_default_function_call_argument_promotions(Type *type);
+int is_compatible_redeclaration(Type *type1, Type *type2);
 int types_are_compatible(Type *type1, Type *type2);
 int types_are_compatible_ignore_qualifiers(Type *type1, Type *type2);
 Type *composite_type(Type *type1, Type *type2);
-- 
2.43.0


From a6579cf6ff75bd8b78a5289656221013e9b4d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 58/93] fix: keep the qualifiers of pointers in composite types

---
 types.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/types.c b/types.c
index 8101fad..481263d 100644
--- a/types.c
+++ b/types.c
@@ -723,8 +723,11 @@ Type *composite_type(Type *type1, Type *type2) {
         else return type1;
     }
 
-    if (type1->type == TYPE_PTR)
-        return make_pointer(composite_type(type1->target, type2->target));
+    if (type1->type == TYPE_PTR) {
+        Type *result = dup_type(type1);
+        result->target = composite_type(type1->target, type2->target);
+        return result;
+    }
 
     if (type1->type == TYPE_FUNCTION) {
         if (type1->function->param_count == 0 && type2->function->param_count != 0)
-- 
2.43.0


From 300842b3aa0cf9a96c2059dda0f2a1c8272d7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 59/93] fix: accept a division by a constant zero that isn't
 evaluated

---
 instrsel.c | 4 ++++
 wcc.h      | 1 +
 2 files changed, 5 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index b091237..8afbd0f 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -620,6 +620,10 @@ static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long do
 }
 
 static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2) {
+    // The result of a division by zero is undefined, but the program may never do it
+    if (!is_const_operation_defined(operation, src1, src2))
+        return merge_cst_int_node(igraph, node_id, operation_type(src1, src2, 0), 0);
+
     Value *value = evaluate_const_binary_int_operation(operation, src1, src2);
 
     if (!value)
diff --git a/wcc.h b/wcc.h
index 528b940..64fc595 100644
--- a/wcc.h
+++ b/wcc.h
@@ -990,6 +990,7 @@ void free_parser(void);
 
 // constexpr.c
 Value* evaluate_const_unary_int_operation(int operation, Value *value);
+int is_const_operation_defined(int operation, Value *src1, Value *src2);
 Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2);
 long double convert_floating_point(long double value, Type *type);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
-- 
2.43.0


From c0fd91d1cf07e5aa2e34ef9659d8042ab3221b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 60/93] fix: diagnose invalid operands to % and misplaced
 break/continue

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 65e7728..087e32a 100644
--- a/parser.c
+++ b/parser.c
@@ -1533,7 +1533,7 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
 
     if (operation == IR_MUL  && (!src1_is_arithmetic || !src2_is_arithmetic)) error("Invalid operands to binary *");
     if (operation == IR_DIV  && (!src1_is_arithmetic || !src2_is_arithmetic)) error("Invalid operands to binary /");
-    if (operation == IR_MOD  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary %");
+    if (operation == IR_MOD  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary %%");
     if (operation == IR_BAND && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary &");
     if (operation == IR_BOR  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary |");
     if (operation == IR_XOR  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary ^");
@@ -3538,12 +3538,14 @@ static void parse_statement(void) {
 
         case TOK_CONTINUE:
             next();
+            if (!cur_loop_continue_dst) error("Continue statement not within a loop");
             add_parser_instruction(IR_JMP, 0, cur_loop_continue_dst, 0);
             consume(TOK_SEMI, ";");
             break;
 
         case TOK_BREAK:
             next();
+            if (!cur_loop_break_dst) error("Break statement not within a loop or switch");
             add_parser_instruction(IR_JMP, 0, cur_loop_break_dst, 0);
             consume(TOK_SEMI, ";");
             break;
-- 
2.43.0


From d8b31f5c22f0d4ba9c441747ea7dae43c8702411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 61/93] fix: function, assignment and comma results aren't
 lvalues, allow &*E and &string

---
 parser.c | 52 ++++++++++++++++++++++++++++++++++++++++++++++------
 types.c  | 11 ++++++++++-
 wcc.h    |  2 ++
 3 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/parser.c b/parser.c
index 087e32a..e764667 100644
--- a/parser.c
+++ b/parser.c
@@ -174,6 +174,7 @@ static Value *load(Value *src1) {
     Value *dst = dup_value(src1);
     dst->vreg = new_vreg();
     dst->is_lvalue = 0;
+    dst->is_temporary = 0;
     dst->type->is_const = 0;
 
     // Ensure an offset read from a struct/union isn't persisted into a register which might
@@ -1788,12 +1789,15 @@ static void add_simple_assignment_instruction(Value *dst, Value *src1, int enfor
 
     add_store_instruction(dst, src1);
 
+    // The result isn't an lvalue
+    dst = dup_value(dst);
+    dst->is_temporary = 1;
     push(dst);
 }
 
 // Parse a simple assignment expression. The stack is the dst.
 static void parse_simple_assignment(int enforce_const) {
-    if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
+    if (!vtop()->is_lvalue || vtop()->is_temporary) error("Cannot assign to an rvalue");
     if (enforce_const && !type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
     Value *dst = pop();
@@ -2123,7 +2127,8 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
 Value *prep_comp_assign(void) {
     next();
 
-    if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
+    if (!vtop()->is_lvalue || vtop()->is_temporary) error("Cannot assign to an rvalue");
+    if (!is_scalar_type(vtop()->type)) error("Compound assignment to a non scalar");
     if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
     Value *v1 = pop();            // lvalue
@@ -2482,6 +2487,7 @@ static void parse_function_call(void) {
         return_value = new_value();
         return_value->local_index = new_local_index();
         return_value->is_lvalue = 1;
+        return_value->is_temporary = 1;
         return_value->type = dup_type(return_type);
 
         // Declare the temp so that the stack allocation code knows the
@@ -2812,16 +2818,46 @@ static void parse_expression(int level) {
 
         case TOK_AMPERSAND:
             next();
-            parse_expression(TOK_INC);
+
+            if (cur_token == TOK_MULTIPLY) {
+                // In &*E, neither operator is evaluated. It's E, converted to a pointer.
+                next();
+                parse_expression(TOK_INC);
+
+                if (vtop()->type->type != TYPE_FUNCTION) {
+                    if (!is_pointer_or_array_type(vtop()->type)) error("Cannot dereference a non-pointer");
+                    push(pl());
+                    break;
+                }
+            }
+            else
+                parse_expression(TOK_INC);
 
             // Arrays are rvalues as well as lvalues. Otherwise, an lvalue or a function is required
-            if (vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION && !vtop()->is_lvalue)
+            if (vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION && (!vtop()->is_lvalue || vtop()->is_temporary))
                 error("Cannot take an address of an rvalue");
 
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
 
             Value *src1 = pop();
 
+            // A function in a register is a pointer already
+            if (src1->type->type == TYPE_FUNCTION && !src1->global_symbol) {
+                src1 = dup_value(src1);
+                src1->type = make_pointer(src1->type);
+                src1->is_lvalue = 0;
+                push(src1);
+                break;
+            }
+
+            if (src1->is_string_literal && src1->type->type == TYPE_ARRAY) {
+                // The address of a string literal is a pointer to an array
+                Value *v = dup_value(load(src1));
+                v->type = make_pointer(src1->type);
+                push(v);
+                break;
+            }
+
             add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
             if (src1->offset && src1->vreg) {
                 // Non-vreg offsets are outputted by codegen. For addresses in registers, it
@@ -2841,7 +2877,8 @@ static void parse_expression(int level) {
             next();
             parse_expression(TOK_DOT);
 
-            if (!vtop()->is_lvalue) error("Cannot ++ or -- an rvalue");
+            if (!vtop()->is_lvalue || vtop()->is_temporary) error("Cannot ++ or -- an rvalue");
+            if (!is_scalar_type(vtop()->type)) error("Cannot prefix ++ or -- on a non scalar");
             if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
             Value *v1 = pop();                 // lvalue
@@ -3050,7 +3087,7 @@ static void parse_expression(int level) {
                 int org_token = cur_token;
                 next();
 
-                if (!vtop()->is_lvalue) error("Cannot ++ or -- an rvalue");
+                if (!vtop()->is_lvalue || vtop()->is_temporary) error("Cannot ++ or -- an rvalue");
                 if (!is_scalar_type(vtop()->type)) error("Cannot postfix ++ or -- on a non scalar");
                 if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
@@ -3111,6 +3148,9 @@ static void parse_expression(int level) {
                 next();
                 parse_expression(TOK_COMMA);
 
+                // The result isn't an lvalue
+                if (!value_stack_is_empty() && vtop()->is_lvalue && is_scalar_type(vtop()->type)) push(pl());
+
                 break;
             }
 
diff --git a/types.c b/types.c
index 481263d..83cb8c9 100644
--- a/types.c
+++ b/types.c
@@ -338,6 +338,13 @@ Type *decay_array_to_pointer(Type *src) {
     return make_pointer(src->target);
 }
 
+// The type of a value when it's used in an expression: arrays and functions become pointers.
+Type *decay_type(Type *src) {
+    if (src->type == TYPE_ARRAY) return make_pointer(src->target);
+    if (src->type == TYPE_FUNCTION) return make_pointer(src);
+    return src;
+}
+
 // Integral and floating types are collectively called arithmetic types.
 // Arithmetic types and pointer types are collectively called scalar types.
 // Array and structure types are collectively called aggregate types.
@@ -653,8 +660,10 @@ static int recursive_types_are_compatible(Type *type1, Type *type2, StrMap *seen
     }
 
     // They are pointer types and are pointing to compatible types
-    if (is_pointer_type(type1) && is_pointer_type(type2))
+    if (is_pointer_type(type1) && is_pointer_type(type2)) {
+        if ((type1->target->type == TYPE_ARRAY) != (type2->target->type == TYPE_ARRAY)) return 0;
         return recursive_types_are_compatible(type1->target, type2->target, seen_tags, 0);
+    }
 
     if (type1->type == TYPE_STRUCT_OR_UNION && type2->type == TYPE_STRUCT_OR_UNION) {
         if (type1->tag) strmap_put(seen_tags, type1->tag->identifier, type1);
diff --git a/wcc.h b/wcc.h
index 64fc595..28b70bd 100644
--- a/wcc.h
+++ b/wcc.h
@@ -299,6 +299,7 @@ typedef struct value {
     int preg;                                            // Allocated physical register
     char preg_class;                                     // Class of physical register, PC_INT or PC_SSE
     unsigned int is_lvalue:1;                            // Is the value an lvalue?
+    unsigned int is_temporary:1;                         // Stored in memory, but not an lvalue in the language, e.g. the result of a function
     unsigned int is_lvalue_in_register:1;                // Is the value an lvalue in a register?
     unsigned int spilled:1;                              // 1 if spilled
     unsigned int is_constant:1;                          // Is it a constant? If so, value is the value.
@@ -1027,6 +1028,7 @@ Type *make_pointer_to_void(void);
 Type *deref_pointer(Type *type);
 Type *make_array(Type *src, int size);
 Type *decay_array_to_pointer(Type *src);
+Type *decay_type(Type *src);
 int is_integer_type(Type *type);
 int is_floating_point_type(Type *type);
 int is_sse_floating_point_type(Type *type);
-- 
2.43.0


From 235d82e0e7afba640de7ca27670a6deddf4c4928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 62/93] fix: diagnose invalid declarators and declaration
 specifiers

---
 parser.c | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index e764667..e6037ee 100644
--- a/parser.c
+++ b/parser.c
@@ -113,7 +113,7 @@ static Value *push(Value *v) {
 }
 
 static void check_stack_has_value(void) {
-    if (vs == vs_start) panic_with_line_number("Empty parser stack");
+    if (vs == vs_start) error("Expected an expression");
     if (vtop()->type->type == TYPE_VOID) error("Illegal attempt to use a void value");
 }
 
@@ -398,7 +398,9 @@ int cur_token_is_type(void) {
 
 // How much will the ++, --, +=, -= operators increment a type?
 static int get_type_inc_dec_size(Type *type) {
-    return type->type == TYPE_PTR ? get_type_size(type->target) : 1;
+    if (type->type != TYPE_PTR) return 1;
+    if (is_incomplete_type(type->target)) error("Arithmetic on a pointer to an incomplete type");
+    return get_type_size(type->target);
 }
 
 // Parse optional repeated __attribute__ ((...)), ignoring everything inside the ((...))
@@ -547,7 +549,7 @@ static BaseType *parse_declaration_specifiers() {
 
     if (!type) panic_with_line_number("Type is null");
 
-    if ((data_type_sum > 1))
+    if (data_type_sum + seen_typedef > 1 || (seen_typedef && (seen_signed || seen_unsigned)))
         error("Two or more data types in declaration specifiers");
 
     if (seen_signed && seen_unsigned)
@@ -605,10 +607,17 @@ static Type *concat_types(Type *type1, Type *type2) {
     if (type1_tail->type == TYPE_FUNCTION && type2->type == TYPE_ARRAY)
         error("Functions cannot return arrays");
 
+    if (type1_tail->type == TYPE_FUNCTION && type2->type == TYPE_FUNCTION)
+        error("Functions cannot return functions");
+
     // Check arrays have complete elements
     if (type1_tail->type == TYPE_ARRAY) {
         if (type2->type == TYPE_STRUCT_OR_UNION && !get_type_size(type2))
             error("Array has incomplete element type");
+        if (type2->type == TYPE_VOID || type2->type == TYPE_ARRAY && is_incomplete_type(type2))
+            error("Array has incomplete element type");
+        if (type2->type == TYPE_FUNCTION)
+            error("Array elements cannot be functions");
     }
 
     return move_array_const(type1);
@@ -665,6 +674,7 @@ static Type *parse_function_type(void) {
             Type *type;
 
             if (is_type_token) {
+                if (param_count && function_type->function->is_paramless) error("Expected an identifier");
                 cur_type_identifier = 0;
                 type = parse_type_name();
                 function_type->function->is_paramless = 0;
@@ -673,12 +683,14 @@ static Type *parse_function_type(void) {
                     error("Invalid storage for function parameter");
             }
             else {
+                if (!function_type->function->is_paramless) error("Expected a type");
                 type = new_type(TYPE_INT);
                 cur_type_identifier = parser_wstrdup(cur_identifier);
                 next();
             }
 
             if (type->type == TYPE_VOID) {
+                if (param_count || cur_type_identifier) error("void must be the only parameter and without a name");
                 cur_type_identifier = old_cur_type_identifier;
                 break;
             }
@@ -711,8 +723,10 @@ static Type *parse_function_type(void) {
             cur_type_identifier = old_cur_type_identifier;
         }
         else if (cur_token == TOK_ELLIPSES) {
+            if (!param_count) error("A parameter is required before ...");
             function_type->function->is_variadic = 1;
             next();
+            if (cur_token != TOK_RPAREN) error("Expected ) after ...");
         }
         else
             error("Expected type or )");
@@ -814,6 +828,7 @@ Type *parse_direct_declarator(void) {
             if (cur_token != TOK_RBRACKET) {
                 Value *v = parse_constant_integer_expression(0);
                 size = v->int_value;
+                if (v->int_value < 0) error("The size of an array is negative");
             }
 
             Type *array_type = new_type(TYPE_ARRAY);
@@ -828,14 +843,19 @@ Type *parse_direct_declarator(void) {
 
 // Parse a type name in a cast, sizeof or va_arg
 Type *parse_abstract_type_name(void) {
+    char *old_cur_type_identifier = cur_type_identifier;
+    cur_type_identifier = 0;
     Type *type = parse_type_name();
     if (type->storage_class != SC_NONE) error("A type name cannot have a storage class");
+    if (cur_type_identifier) error("A type name cannot have an identifier");
+    cur_type_identifier = old_cur_type_identifier;
     return type;
 }
 
 Type *parse_type_name(void) {
     BaseType *base_type = parse_declaration_specifiers();
     base_type->type->storage_class = base_type->storage_class;
+    cur_type_identifier = 0; // Forget about any members of a struct or union in the specifiers
     Type *result = concat_types(parse_declarator(), base_type->type);
     wfree(base_type);
     return result;
@@ -978,7 +998,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
                 // https://gcc.gnu.org/onlinedocs/gcc/Zero-Length.html
                 int is_zero_length_array = type->type == TYPE_ARRAY && type->array_size == 0;
 
-                if (!is_zero_length_array && is_incomplete_type(type)) error("Struct/union members cannot have an incomplete type");
+                if (!is_zero_length_array && is_incomplete_type(type) || type->type == TYPE_VOID) error("Struct/union members cannot have an incomplete type");
                 if (type->type == TYPE_FUNCTION) error("Struct/union members cannot have a function type");
 
                 StructOrUnionMember *member = add_struct_member(cur_type_identifier, type, s, &member_count);
@@ -1134,6 +1154,7 @@ void parse_typedef(void) {
         cur_type_identifier = 0;
 
         Type *type = concat_types(parse_declarator(), dup_type(base_type));
+        if (!cur_type_identifier) error("Expected an identifier");
 
         parse_attributes();
 
@@ -2227,6 +2248,8 @@ static void parse_declaration(void) {
 
     int has_linkage = base_type->storage_class == SC_EXTERN || type->type == TYPE_FUNCTION;
 
+    if (type->type == TYPE_VOID && !has_linkage) error("Variable %s has type void", cur_type_identifier);
+
     if (type->type == TYPE_FUNCTION && base_type->storage_class != SC_EXTERN && base_type->storage_class != SC_NONE)
         error("Invalid storage class for function %s", cur_type_identifier);
 
@@ -2462,6 +2485,9 @@ static void parse_function_call(void) {
     }
     consume(TOK_RPAREN, ")");
 
+    if (!function_type->function->is_paramless && fpa->param_locations->length - has_struct_or_union_return_value < function_type->function->param_count)
+        error("Too few arguments for function call");
+
     finalize_function_param_allocation(fpa);
     src1->function_call_arg_stack_padding = fpa->padding;
 
@@ -3688,11 +3714,16 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
     if (cur_token == TOK_LCURLY) {
         is_definition = 1;
 
+        if (is_incomplete_type(type->target)) error("Function %s returns an incomplete type", symbol->identifier);
+
         // Ensure parameters have unique identifiers
         List *identifiers = symbol->function->type->function->param_identifiers;
         for (int i = 0; i < symbol->function->type->function->param_count; i++) {
             if (!identifiers->elements[i]) error("Missing identifier for parameter in function definition");
 
+            Type *param_type = symbol->function->type->function->param_types->elements[i];
+            if (param_type->type != TYPE_ARRAY && is_incomplete_type(param_type)) error("Parameter %s has an incomplete type", identifiers->elements[i]);
+
             for (int j = 0; j < i; j++)
                 if (!strcmp(identifiers->elements[i], identifiers->elements[j])) error("Identifier redeclared: %s", identifiers->elements[i]);
         }
@@ -3804,6 +3835,8 @@ void parse(void) {
                 else {
                     // Non-function
 
+                    if (type->type == TYPE_VOID && linkage != LINKAGE_EXPLICIT_EXTERNAL) error("Variable %s has type void", cur_type_identifier);
+
                     if (original_symbol) {
                         // Merge types if it's a redeclaration
                         if (!is_compatible_redeclaration(type, original_symbol->type)) error("Incompatible types");
@@ -3849,6 +3882,13 @@ void parse(void) {
 
         else error("Expected global declaration or function");
     }
+
+    // Tentative definitions must be complete at the end of the translation unit
+    for (int i = 0; i < global_scope->symbol_list->length; i++) {
+        Symbol *symbol = global_scope->symbol_list->elements[i];
+        if (symbol->linkage == LINKAGE_IMPLICIT_EXTERNAL && symbol->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(symbol->type))
+            error("Variable %s has an incomplete type", symbol->identifier);
+    }
 }
 
 void dump_symbols(void) {
-- 
2.43.0


From 4183244e91a1de80d3cbb56c7ae175c01b0c6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 63/93] fix: check the operand types of conversions, casts,
 initializers, calls and conditions

---
 parser.c | 153 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 116 insertions(+), 37 deletions(-)

diff --git a/parser.c b/parser.c
index e6037ee..e192b5b 100644
--- a/parser.c
+++ b/parser.c
@@ -41,6 +41,7 @@ static List *allocated_sets;  // Allocated Set instances
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
+static int is_object_initializer; // Set when starting to parse the initializer of a whole object
 static int initialized_object_is_zeroed; // Set if an object has been zeroed before parsing its initializer
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
@@ -99,6 +100,8 @@ Tac *add_parser_instruction(int operation, Value *dst, Value *src1, Value *src2)
     return tac;
 }
 
+Value *load_function(Value *src, Type *dst_type);
+
 static Value *decay_array_value(Value *v) {
     Value *result = dup_value(v);
     result->type = decay_array_to_pointer(v->type);
@@ -1236,7 +1239,9 @@ static void add_jmp_target_instruction(Value *v) {
 
 static void add_conditional_jump(int operation, Value *dst) {
     // Load the result into a register
-    add_parser_instruction(operation, 0, pl(), dst);
+    Value *src1 = pl();
+    if (src1->type->type == TYPE_FUNCTION) src1 = load_function(src1, make_pointer_to_void());
+    add_parser_instruction(operation, 0, src1, dst);
 }
 
 // Add instructions for && and || operators
@@ -1454,9 +1459,9 @@ static void arithmetic_operation(int operation, Type *dst_type) {
     }
 
     if (is_integer_type(common_type) && is_integer_type(src1->type) && is_integer_type(src2->type)) {
-        if (!type_eq(common_type, src1->type) && (src1->type->type <= common_type->type || src1->type->is_unsigned != common_type->is_unsigned))
+        if (!type_eq(common_type, src1->type) && (src1->type->type == TYPE_ENUM || src1->type->type <= common_type->type || src1->type->is_unsigned != common_type->is_unsigned))
             src1 = integer_type_change(src1, common_type);
-        if (!type_eq(common_type, src2->type) && (src2->type->type <= common_type->type || src2->type->is_unsigned != common_type->is_unsigned))
+        if (!type_eq(common_type, src2->type) && (src2->type->type == TYPE_ENUM || src2->type->type <= common_type->type || src2->type->is_unsigned != common_type->is_unsigned))
             src2 = integer_type_change(src2, common_type);
     }
 
@@ -1513,7 +1518,7 @@ void check_minus_operation_type(Value *src1, Value *src2) {
     // * the left operand is a pointer to an object type and the right operand has integral type. (Decrementing is equivalent to subtracting 1.)
     if (
         (!(src1_is_arithmetic && src2_is_arithmetic)) &&
-        (!(src1_is_pointer && src2_is_pointer && types_are_compatible_ignore_qualifiers(deref_pointer(src1->type), deref_pointer(src2->type)))) &&
+        (!(src1_is_pointer && src2_is_pointer && types_are_compatible_ignore_qualifiers(src1->type, src2->type))) &&
         (!(src1_is_pointer && src2_is_integer))
     )
     error("Invalid operands to binary minus");
@@ -1525,13 +1530,13 @@ void check_bitwise_shift_operation_type(Value *src1, Value *src2) {
 }
 
 void check_and_or_operation_type(Value *src1, Value *src2) {
-    if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
-    if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
+    if (!is_scalar_type(decay_type(src1->type))) error("Invalid operands to &&/||");
+    if (!is_scalar_type(decay_type(src2->type))) error("Invalid operands to &&/||");
 }
 
 void check_unary_operation_type(int operation, Value *value) {
     if (operation == IR_BNOT && !is_integer_type(value->type)) error("Cannot use ~ on a non integer");
-    if (operation == IR_LNOT && !is_scalar_type(value->type)) error("Cannot use ! on a non scalar");
+    if (operation == IR_LNOT && !is_scalar_type(decay_type(value->type))) error("Cannot use ! on a non scalar");
 
     if (operation == IR_ADD || operation == IR_SUB)
         if (!is_arithmetic_type(value->type)) error("Can only use unary +/- on an arithmetic type");
@@ -1579,6 +1584,9 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
             (!(src1_is_pointer && src2_is_pointer && is_incomplete_type(src1_type_deref) && is_incomplete_type(src2_type_deref) && types_are_compatible_ignore_qualifiers(src1_type_deref, src2_type_deref)))
         )
             error("Invalid operands to relational operator");
+
+        if ((src1_is_pointer && is_floating_point_type(src2->type)) || (src2_is_pointer && is_floating_point_type(src1->type)))
+            error("Invalid operands to relational operator");
     }
 
     if (operation == IR_EQ || operation == IR_NE) {
@@ -1601,8 +1609,8 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
             (!(src1_is_pointer && src2_is_pointer && types_are_compatible_ignore_qualifiers(src1_type_deref, src2_type_deref))) &&
             (!(src1_is_pointer && src2_is_pointer && is_pointer_to_void(src2->type))) &&
             (!(src2_is_pointer && src1_is_pointer && is_pointer_to_void(src1->type))) &&
-            (!(src1_is_pointer && is_null_pointer(src2))) &&
-            (!(src2_is_pointer && is_null_pointer(src1)))
+            (!((src1_is_pointer || src1_is_function) && is_null_pointer(src2))) &&
+            (!((src2_is_pointer || src2_is_function) && is_null_pointer(src1)))
         )
             error("Invalid operands to relational operator");
     }
@@ -1614,6 +1622,12 @@ static void parse_arithmetic_operation(int level, int operation, Type *type) {
     Value *src2 = vtop();
     check_binary_operation_types(operation, src1, src2);
 
+    // Compare the address of a function with a null pointer or a pointer to void
+    if ((operation == IR_EQ || operation == IR_NE) && (src1->type->type == TYPE_FUNCTION) != (src2->type->type == TYPE_FUNCTION)) {
+        if (src2->type->type == TYPE_FUNCTION) vs[0] = load_function(src2, make_pointer_to_void());
+        else vs[1] = load_function(src1, make_pointer_to_void());
+    }
+
     arithmetic_operation(operation, type);
 }
 
@@ -1744,39 +1758,78 @@ static void warn_of_incompatible_types_in_assignment(Type *dst, Type *src) {
     if (warn_assignment_types_incompatible) warning("Incompatible types in assignment");
 }
 
-static void check_simple_assignment_types(Value *dst, Value *src) {
-    int dst_is_arithmetic = is_arithmetic_type(dst->type);
-    int src_is_arithmetic = is_arithmetic_type(src->type);
+// Check a value can be converted to a type by assignment, i.e. in an assignment, an
+// initialization, a function argument or a return statement.
+static void check_assignment_conversion(Type *dst_type, Value *src) {
+    Type *src_type = decay_type(src->type);
+
+    if (dst_type->type == TYPE_STRUCT_OR_UNION || src_type->type == TYPE_STRUCT_OR_UNION) {
+        if (dst_type->type != src_type->type || !types_are_compatible_ignore_qualifiers(dst_type, src_type))
+            error("Incompatible types in assignment");
+    }
+    else if (src_type->type == TYPE_VOID)
+        error("Void value not ignored");
+    else if (dst_type->type == TYPE_ARRAY)
+        error("Cannot assign to an array");
+    else if (
+        (is_floating_point_type(dst_type) && src_type->type == TYPE_PTR) ||
+        (dst_type->type == TYPE_PTR && is_floating_point_type(src_type)) ||
+        (dst_type->type != TYPE_PTR && src->type->type == TYPE_FUNCTION)
+    )
+        error("Incompatible types in assignment");
+}
+
+// A cast is either to void or from a scalar type to a scalar type
+static void check_cast_types(Type *dst_type, Value *src) {
+    Type *src_type = decay_type(src->type);
+
+    if (!is_scalar_type(dst_type)) error("Cannot cast to a non scalar type");
+    if (src_type->type == TYPE_VOID) error("Void value not ignored");
+    if (!is_scalar_type(src_type)) error("Cannot cast a non scalar type");
+
+    if (
+        (is_floating_point_type(dst_type) && src_type->type == TYPE_PTR) ||
+        (dst_type->type == TYPE_PTR && is_floating_point_type(src_type))
+    )
+        error("Cannot cast between a pointer and a floating point type");
+}
+
+static void check_simple_assignment_types(Type *dst_type, Value *src) {
+    Type *src_type = src->type->type == TYPE_ARRAY ? decay_array_to_pointer(src->type) : src->type;
+    int dst_is_arithmetic = is_arithmetic_type(dst_type);
+    int src_is_arithmetic = is_arithmetic_type(src_type);
+
+    check_assignment_conversion(dst_type, src);
 
     // Both are arithmetic types
     if (dst_is_arithmetic && src_is_arithmetic) return;
 
     // Both are compatible struct/union types
-    if (dst->type->type == TYPE_STRUCT_OR_UNION && types_are_compatible_ignore_qualifiers(dst->type, src->type)) return;
+    if (dst_type->type == TYPE_STRUCT_OR_UNION && types_are_compatible_ignore_qualifiers(dst_type, src_type)) return;
 
     // Allow a function to be assigned to void *
-    if (is_pointer_to_void(dst->type) && src->type->type == TYPE_FUNCTION) return;
+    if (is_pointer_to_void(dst_type) && src_type->type == TYPE_FUNCTION) return;
 
     // Both are pointers with identical qualifiers, with the targets compatible
-    if (dst->type->type == TYPE_PTR && src->type->type == TYPE_PTR) {
-        if (src->type->target->is_const && !dst->type->target->is_const)
+    if (dst_type->type == TYPE_PTR && src_type->type == TYPE_PTR) {
+        if (src_type->target->is_const && !dst_type->target->is_const)
             warning("Assignment discards const qualifier");
 
-        if (types_are_compatible_ignore_qualifiers(dst->type->target, src->type->target)) return;
+        if (types_are_compatible_ignore_qualifiers(dst_type->target, src_type->target)) return;
 
-        if (is_pointer_to_void(dst->type) || is_pointer_to_void(src->type)) return;
+        if (is_pointer_to_void(dst_type) || is_pointer_to_void(src_type)) return;
 
-        warn_of_incompatible_types_in_assignment(dst->type, src->type);
+        warn_of_incompatible_types_in_assignment(dst_type, src_type);
         return;
     }
 
-    if (dst->type->type == TYPE_PTR && is_null_pointer(src)) return;
+    if (dst_type->type == TYPE_PTR && is_null_pointer(src)) return;
 
     // Dst is a pointer to a function and src is a function
-    if (is_pointer_to_function_type(dst->type) && src->type->type == TYPE_FUNCTION && types_are_compatible(dst->type->target, src->type)) return;
+    if (is_pointer_to_function_type(dst_type) && src_type->type == TYPE_FUNCTION && types_are_compatible(dst_type->target, src_type)) return;
 
     // Fall back to ordinary type checking
-    warn_of_incompatible_types_in_assignment(dst->type, src->type);
+    warn_of_incompatible_types_in_assignment(dst_type, src_type);
 }
 
 // Add an instruction to store src1 in the lvalue dst, which may be a bit field
@@ -1788,6 +1841,7 @@ static void add_store_instruction(Value *dst, Value *src1) {
 // The value of the expression is the value of dst after the store, which may be less wide
 // for a bit field.
 static void store_operation_result(Value *dst) {
+    check_simple_assignment_types(dst->type, vtop());
     push(add_convert_type_if_needed(pop(), dst->type));
     add_store_instruction(dst, vtop());
 
@@ -1804,7 +1858,7 @@ static void add_simple_assignment_instruction(Value *dst, Value *src1, int enfor
 
     dst->is_lvalue = 1;
 
-    check_simple_assignment_types(dst, src1);
+    check_simple_assignment_types(dst->type, src1);
 
     src1 = add_convert_type_if_needed(src1, dst->type);
 
@@ -1894,6 +1948,7 @@ static void add_initializer(Value *dst, int offset, Value *scalar) {
     if (!scalar->is_constant && (size != 8 || is_floating_point_type(dst->type)))
         error("An address can only be used to initialize a pointer or a long");
 
+    check_simple_assignment_types(dst->type, scalar);
     if (scalar->is_constant) scalar = cast_constant_value(scalar, dst->type);
 
     if (dst->bit_field_size) {
@@ -1968,6 +2023,7 @@ static void parse_local_object_initializer(Value *value) {
         initialized_object_is_zeroed = 1;
     }
 
+    is_object_initializer = 1;
     parse_initializer(type_iterator(value->type), value, 0);
 
     if (size) {
@@ -2011,6 +2067,10 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
     parse_expression_function_type *parse_expr = value->global_symbol
         ? parse_constant_expression : parse_expression_and_pop;
 
+    // An object that's an array or struct/union as a whole needs {...}, a string literal or a struct/union
+    int is_unbraced_object = is_object_initializer && cur_token != TOK_LCURLY;
+    is_object_initializer = 0;
+
     TypeIterator *outer_it = it;
     int initial_outer_offset = it->offset;
 
@@ -2071,10 +2131,16 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
 
                 initialize_string_literal =
                     it->type->type == TYPE_ARRAY &&
-                    (it->type->target->type == TYPE_CHAR || it->type->target->type == TYPE_INT);
+                    it->type->target->type == (string_literals[parsed_expression->string_literal_index].is_wide_char ? TYPE_INT : TYPE_CHAR);
                 }
         }
 
+        if (is_unbraced_object && value->type->type == TYPE_ARRAY && (!initialize_string_literal || it != outer_it))
+            error("Invalid initializer for an array");
+
+        if (is_unbraced_object && value->type->type == TYPE_STRUCT_OR_UNION && !types_are_compatible_ignore_qualifiers(value->type, (expression ? expression : parsed_expression)->type))
+            error("Invalid initializer for a struct or union");
+
         if (initialize_string_literal) {
             return initialize_with_string_literal(it, value, parsed_expression);
         }
@@ -2444,6 +2510,8 @@ static void parse_function_call(void) {
 
         // Convert type if needed
         if (!function_type->function->is_paramless && arg_count < function_type->function->param_count) {
+            check_simple_assignment_types(decay_type(function_type->function->param_types->elements[arg_count]), vtop());
+
             if (!type_eq(vtop()->type, function_type->function->param_types->elements[arg_count])) {
                 Type *param_type = function_type->function->param_types->elements[arg_count];
 
@@ -2460,6 +2528,7 @@ static void parse_function_call(void) {
                 error("Too many arguments for function call");
 
             Value *arg = pl();
+            if (arg->type->type == TYPE_VOID) error("Void value not ignored");
             Type *type = apply_default_function_call_argument_promotions(arg->type);
 
             if (!type_eq(arg->type, type))
@@ -2642,9 +2711,6 @@ void parse_struct_dot_arrow_expression(void) {
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
     StructOrUnionMember *member = lookup_struct_or_union_member(str_type, cur_identifier);
 
-    int member_is_const = 0;
-    member_is_const = !type_is_modifiable(str_type);
-
     if (!is_dot) indirect();
 
     // The value stack is immutable. An offset may need adding, so this must be done
@@ -2655,13 +2721,13 @@ void parse_struct_dot_arrow_expression(void) {
     v->bit_field_offset = v->offset * 8 + (member->bit_field_offset & 7);
     v->bit_field_size = member->bit_field_size;
     v->type = dup_type(member->type);
-    v->type->is_const = member_is_const;
+    if (str_type->is_const) v->type->is_const = 1;
     v->is_lvalue = 1;
     push(v);
 }
 
 void check_ternary_operation_types(Value *switcher, Value *src1, Value *src2) {
-    if (switcher->type->type != TYPE_ARRAY && !is_scalar_type(switcher->type))
+    if (!is_scalar_type(decay_type(switcher->type)))
         error("Expected scalar type for first operand of ternary operator");
 
     int src1_is_arithmetic = is_arithmetic_type(src1->type);
@@ -2828,6 +2894,7 @@ static void parse_expression(int level) {
                 push_integral_constant(TYPE_INT, is_floating_point_type(value->type) ? value->fp_value == 0 : !value->int_value);
             }
             else {
+                if (vtop()->type->type == TYPE_FUNCTION) push(load_function(pl(), make_pointer_to_void()));
                 push_integral_constant(TYPE_INT, 0);
                 arithmetic_operation(IR_EQ, new_type(TYPE_INT));
             }
@@ -2989,12 +3056,17 @@ static void parse_expression(int level) {
                     consume(TOK_RPAREN, ")");
 
                     parse_expression(TOK_INC);
-                    Value *v1 = pl();
-
-                    if (dst_type->type == TYPE_VOID)
+                    if (dst_type->type == TYPE_VOID) {
+                        if (vtop()->type->type != TYPE_VOID) pl();
+                        else pop_void();
                         push_void();
+                        break;
+                    }
+
+                    check_cast_types(dst_type, vtop());
+                    Value *v1 = pl();
 
-                    else if (v1->is_constant) {
+                    if (v1->is_constant) {
                         // Special case for (void *) int-constant
                         if (is_pointer_to_void(dst_type) && (is_integer_type(v1->type) || is_pointer_to_void(v1->type)) && v1->is_constant) {
                             Value *dst = new_value();
@@ -3007,7 +3079,11 @@ static void parse_expression(int level) {
                             // Cast integer constant
                             push(cast_constant_value(v1, dst_type));
                     }
-                    else if (dst_type->type != TYPE_VOID && v1->type != dst_type) {
+                    else if (v1->type != dst_type) {
+                        // An integer is first converted to a pointer
+                        if (is_pointer_to_function_type(dst_type) && is_integer_type(v1->type))
+                            v1 = add_convert_type_if_needed(v1, make_pointer_to_void());
+
                         if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, make_pointer_to_void());
 
                         // Add move instruction
@@ -3192,7 +3268,7 @@ static void parse_iteration_conditional_expression(Value **lcond, Value **cur_lo
     add_jmp_target_instruction(*lcond);
 
     parse_expression(TOK_COMMA);
-    if (!is_scalar_type(vtop()->type))
+    if (!is_scalar_type(decay_type(vtop()->type)))
         error("Expected scalar type for loop controlling expression");
 
     add_conditional_jump(IR_JZ, lend);
@@ -3446,7 +3522,7 @@ static void parse_if_statement(void) {
     consume(TOK_LPAREN, "(");
     parse_expression(TOK_COMMA);
 
-    if (vtop()->type->type != TYPE_ARRAY && !is_scalar_type(vtop()->type))
+    if (!is_scalar_type(decay_type(vtop()->type)))
         error("The controlling statement of an if statement must be a scalar");
 
     consume(TOK_RPAREN, ")");
@@ -3488,8 +3564,10 @@ static void parse_return_statement(void) {
             vs++; // Remove from value stack
             src1 = 0;
         }
-        else
+        else {
+            check_simple_assignment_types(cur_function_symbol->function->type->target, vtop());
             src1 = add_convert_type_if_needed(pl(), cur_function_symbol->function->type->target);
+        }
 
         add_parser_instruction(IR_RETURN, 0, src1, 0);
     }
@@ -3859,6 +3937,7 @@ void parse(void) {
                         if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
                             error("Attempt to use an incomplete struct or union in an initializer");
 
+                        is_object_initializer = 1;
                         parse_initializer(type_iterator(v->type), v, 0);
                         symbol->type = v->type;
                         base_type = old_base_type;
-- 
2.43.0


From 30b3e5b1756d0109b7d0a9c44de86b9f2d5b3d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 64/93] fix: diagnose incomplete struct, member, typedef and
 global declarations

---
 parser.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index e192b5b..a1e4c22 100644
--- a/parser.c
+++ b/parser.c
@@ -959,6 +959,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
         next();
     }
 
+    if (!identifier && cur_token != TOK_LCURLY) error("Expected a struct or union tag or {");
+
     if (cur_token == TOK_LCURLY) {
         // Struct/union definition
 
@@ -976,6 +978,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
         // Loop over members
         int member_count = 0;
         while (cur_token != TOK_RCURLY) {
+            int has_specifiers = cur_token_is_type();
             BaseType *member_base_type = parse_declaration_specifiers();
             if (member_base_type->storage_class != SC_NONE) error("A struct/union member cannot have a storage class");
 
@@ -987,10 +990,16 @@ static Type *parse_struct_or_union_type_specifier(void) {
                 if (cur_token != TOK_COLON) {
                     cur_type_identifier = 0;
                     type = concat_base_type(parse_declarator(), member_base_type);
+
+                    // Only bit fields, structs and unions can be unnamed
+                    if (!cur_type_identifier && cur_token != TOK_COLON && type->type != TYPE_STRUCT_OR_UNION)
+                        error("Expected an identifier");
+                    if (!has_specifiers && cur_token != TOK_COLON) error("Expected a type");
                 }
 
                 else {
                     // Unnamed bit field
+                    if (!has_specifiers) error("Expected a type");
                     next();
                     cur_type_identifier = 0;
                     type = new_type(TYPE_INT);
@@ -1081,6 +1090,8 @@ static Type *parse_enum_type_specifier(void) {
 
     type->tag = 0;
 
+    if (!identifier && cur_token != TOK_LCURLY) error("Expected an enum tag or {");
+
     if (cur_token == TOK_LCURLY) {
         // Enum definition
 
@@ -3870,7 +3881,9 @@ void parse(void) {
             else
                 base_type = parse_declaration_specifiers();
 
-            while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
+            if (cur_token == TOK_EOF) error("Expected a declarator or ;");
+
+            while (cur_token != TOK_SEMI) {
                 cur_type_identifier = 0;
 
                 if (base_type->storage_class == SC_AUTO)
@@ -3946,7 +3959,10 @@ void parse(void) {
 
                 parse_attributes();
 
-                if (cur_token != TOK_SEMI) consume(TOK_COMMA, ", or ; in declaration");
+                if (cur_token != TOK_SEMI) {
+                    consume(TOK_COMMA, ", or ; in declaration");
+                    if (cur_token == TOK_SEMI || cur_token == TOK_EOF) error("Expected an identifier");
+                }
             }
 
             wfree(base_type);
-- 
2.43.0


From d840ba532fad0e010127c543e4d3e908a3f6ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 65/93] fix: labels are part of the statement they label,
 declarations aren't expressions

---
 parser.c | 288 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 145 insertions(+), 143 deletions(-)

diff --git a/parser.c b/parser.c
index a1e4c22..8f42416 100644
--- a/parser.c
+++ b/parser.c
@@ -46,13 +46,12 @@ static int initialized_object_is_zeroed; // Set if an object has been zeroed bef
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
+static void parse_block_item(void);
 static void parse_expression(int level);
 static void parse_compound_statement(void);
 static void init_value_stack(void);
 static void free_value_stack(void);
 
-static BaseType *base_type;
-
 // Duplicate a string an track it in allocate_strings
 static char *parser_wstrdup(char *str) {
     if (!str) return NULL;
@@ -1185,8 +1184,9 @@ void parse_typedef(void) {
         symbol->type = new_type(TYPE_TYPEDEF);
         symbol->type->target = type;
 
-        if (cur_token != TOK_SEMI) consume(TOK_COMMA, ",");
         if (cur_token == TOK_SEMI) break;
+        consume(TOK_COMMA, ",");
+        if (cur_token == TOK_SEMI) error("Expected an identifier");
     }
 
     wfree(base_type_with_storage_class);
@@ -2315,7 +2315,7 @@ static void parse_bitwise_shift(int level, int unsigned_operation, int signed_op
 }
 
 // Parse a declaration
-static void parse_declaration(void) {
+static void parse_declaration(BaseType *base_type) {
     Symbol *symbol;
 
     cur_type_identifier = 0;
@@ -2383,8 +2383,6 @@ static void parse_declaration(void) {
         if (has_linkage) error("%s has both extern and an initializer", symbol->identifier);
 
         push_symbol(symbol);
-        BaseType *old_base_type = base_type;
-        base_type = 0;
         next();
         Value *v = pop();
 
@@ -2394,7 +2392,6 @@ static void parse_declaration(void) {
         parse_local_object_initializer(v);
         symbol->type = v->type;
         if (array_declaration) array_declaration->type = v->type;
-        base_type = old_base_type;
     }
 
     // If it's not initialized and incomplete, bail.
@@ -2402,6 +2399,17 @@ static void parse_declaration(void) {
         error("Storage size is unknown");
 }
 
+// Parse the declarators that follow declaration specifiers
+static void parse_declaration_list(BaseType *base_type) {
+    while (1) {
+        parse_declaration(base_type);
+        if (cur_token != TOK_COMMA) break;
+        next();
+    }
+
+    wfree(base_type);
+}
+
 Value *parse_expression_and_pop(int level) {
     parse_expression(level);
     return pop();
@@ -2426,9 +2434,7 @@ int parse_sizeof(void) {
     ir_start = ir = 0;
 
     // It may be part of a declarator
-    BaseType *saved_base_type = base_type;
     char *saved_cur_type_identifier = cur_type_identifier;
-    base_type = 0;
 
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
@@ -2444,7 +2450,6 @@ int parse_sizeof(void) {
     else
         expression = parse_expression_and_pop(TOK_INC);
 
-    base_type = saved_base_type;
     cur_type_identifier = saved_cur_type_identifier;
 
     ir_start = saved_ir_start;
@@ -2879,22 +2884,7 @@ static Symbol *implicitly_declare_function(char *identifier) {
 static void parse_expression(int level) {
     // Parse any tokens that can be at the start of an expression
 
-    // If base type has a value, then the current token cannot be a type. The
-    // exception is if it's a typedef which has been redeclared as a variable, in which
-    // case, cur_token_is_type will identify it as a typedef, when it should be
-    // treated as an identifier.
-    if (!base_type && cur_token_is_type()) {
-        base_type = parse_declaration_specifiers();
-        parse_expression(TOK_COMMA);
-        free_and_null(base_type);
-    }
-
-    else switch(cur_token) {
-        // A typedef an also be used as an identifier in a labelled statement
-        case TOK_TYPEDEF:
-            parse_typedef();
-            break;
-
+    switch(cur_token) {
         case TOK_LOGICAL_NOT:
             next();
             parse_expression(TOK_INC);
@@ -2995,20 +2985,18 @@ static void parse_expression(int level) {
             break;
         }
 
-        case TOK_MULTIPLY:
-            if (base_type)
-                parse_declaration();
-            else {
-                next();
-                parse_expression(TOK_INC);
+        case TOK_MULTIPLY: {
+            next();
+            parse_expression(TOK_INC);
 
-                // Special case: indirects on function types are no-ops.
-                if (vtop()->type->type != TYPE_FUNCTION)  {
-                    if (!is_pointer_or_array_type(vtop()->type)) error("Cannot dereference a non-pointer");
-                    indirect();
-                }
+            // Special case: indirects on function types are no-ops.
+            if (vtop()->type->type != TYPE_FUNCTION)  {
+                if (!is_pointer_or_array_type(vtop()->type)) error("Cannot dereference a non-pointer");
+                indirect();
             }
+
             break;
+        }
 
         case TOK_PLUS:
             // Unary plus
@@ -3049,70 +3037,67 @@ static void parse_expression(int level) {
 
             break;
 
-        case TOK_LPAREN:
-            if (base_type)
-                parse_declaration();
-
-            else {
-                next();
+        case TOK_LPAREN: {
+            next();
 
-                if (cur_token == TOK_LCURLY) {
-                    parse_statement_expression();
-                    consume(TOK_RPAREN, ")");
-                }
+            if (cur_token == TOK_LCURLY) {
+                parse_statement_expression();
+                consume(TOK_RPAREN, ")");
+            }
 
-                else if (cur_token_is_type()) {
-                    // Cast
-                    Type *dst_type = parse_abstract_type_name();
-                    consume(TOK_RPAREN, ")");
-
-                    parse_expression(TOK_INC);
-                    if (dst_type->type == TYPE_VOID) {
-                        if (vtop()->type->type != TYPE_VOID) pl();
-                        else pop_void();
-                        push_void();
-                        break;
-                    }
+            else if (cur_token_is_type()) {
+                // Cast
+                Type *dst_type = parse_abstract_type_name();
+                consume(TOK_RPAREN, ")");
 
-                    check_cast_types(dst_type, vtop());
-                    Value *v1 = pl();
-
-                    if (v1->is_constant) {
-                        // Special case for (void *) int-constant
-                        if (is_pointer_to_void(dst_type) && (is_integer_type(v1->type) || is_pointer_to_void(v1->type)) && v1->is_constant) {
-                            Value *dst = new_value();
-                            dst->is_constant =1;
-                            dst->int_value = v1->int_value;
-                            dst->type = make_pointer_to_void();
-                            push(dst);
-                        }
-                        else
-                            // Cast integer constant
-                            push(cast_constant_value(v1, dst_type));
-                    }
-                    else if (v1->type != dst_type) {
-                        // An integer is first converted to a pointer
-                        if (is_pointer_to_function_type(dst_type) && is_integer_type(v1->type))
-                            v1 = add_convert_type_if_needed(v1, make_pointer_to_void());
+                parse_expression(TOK_INC);
+                if (dst_type->type == TYPE_VOID) {
+                    if (vtop()->type->type != TYPE_VOID) pl();
+                    else pop_void();
+                    push_void();
+                    break;
+                }
 
-                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, make_pointer_to_void());
+                check_cast_types(dst_type, vtop());
+                Value *v1 = pl();
 
-                        // Add move instruction
+                if (v1->is_constant) {
+                    // Special case for (void *) int-constant
+                    if (is_pointer_to_void(dst_type) && (is_integer_type(v1->type) || is_pointer_to_void(v1->type)) && v1->is_constant) {
                         Value *dst = new_value();
-                        dst->vreg = new_vreg();
-                        dst->type = dup_type(dst_type);
-                        add_parser_instruction(IR_MOVE, dst, v1, 0);
+                        dst->is_constant =1;
+                        dst->int_value = v1->int_value;
+                        dst->type = make_pointer_to_void();
                         push(dst);
                     }
-                    else push(v1);
+                    else
+                        // Cast integer constant
+                        push(cast_constant_value(v1, dst_type));
                 }
-                else {
-                    // Sub expression
-                    parse_expression(TOK_COMMA);
-                    consume(TOK_RPAREN, ")");
+                else if (v1->type != dst_type) {
+                    // An integer is first converted to a pointer
+                    if (is_pointer_to_function_type(dst_type) && is_integer_type(v1->type))
+                        v1 = add_convert_type_if_needed(v1, make_pointer_to_void());
+
+                    if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, make_pointer_to_void());
+
+                    // Add move instruction
+                    Value *dst = new_value();
+                    dst->vreg = new_vreg();
+                    dst->type = dup_type(dst_type);
+                    add_parser_instruction(IR_MOVE, dst, v1, 0);
+                    push(dst);
                 }
+                else push(v1);
+            }
+            else {
+                // Sub expression
+                parse_expression(TOK_COMMA);
+                consume(TOK_RPAREN, ")");
             }
+
             break;
+        }
 
         case TOK_INTEGER:
             push_cur_long();
@@ -3130,41 +3115,34 @@ static void parse_expression(int level) {
             break;
         }
 
-        case TOK_IDENTIFIER:
+        case TOK_IDENTIFIER: {
+            // It's a symbol
+            if (!strcmp(cur_identifier, "va_start"))
+                parse_va_start();
 
-        // In this context, the lexer can identify a typedef which has been redeclared as a variable.
-        // Treat it as if it was an identifier
-        case TOK_TYPEDEF_TYPE:
-            if (base_type)
-                parse_declaration();
+            else if (!strcmp(cur_identifier, "va_arg"))
+                parse_va_arg();
 
             else {
-                // It's a symbol
-                if (!strcmp(cur_identifier, "va_start"))
-                    parse_va_start();
+                // Look up symbol
+                Symbol *symbol = lookup_symbol(cur_identifier, cur_scope, 1);
+                char *identifier = symbol ? 0 : parser_wstrdup(cur_identifier);
 
-                else if (!strcmp(cur_identifier, "va_arg"))
-                    parse_va_arg();
-
-                else {
-                    // Look up symbol
-                    Symbol *symbol = lookup_symbol(cur_identifier, cur_scope, 1);
-                    char *identifier = symbol ? 0 : parser_wstrdup(cur_identifier);
-
-                    next();
-
-                    if (!symbol) {
-                        if (cur_token != TOK_LPAREN || cur_scope == global_scope) error("Unknown symbol \"%s\"", identifier);
-                        symbol = implicitly_declare_function(identifier);
-                    }
+                next();
 
-                    if (symbol->is_enum_value)
-                        push_integral_constant(TYPE_INT, symbol->value);
-                    else
-                        push_symbol(symbol);
+                if (!symbol) {
+                    if (cur_token != TOK_LPAREN || cur_scope == global_scope) error("Unknown symbol \"%s\"", identifier);
+                    symbol = implicitly_declare_function(identifier);
                 }
+
+                if (symbol->is_enum_value)
+                    push_integral_constant(TYPE_INT, symbol->value);
+                else
+                    push_symbol(symbol);
             }
+
             break;
+        }
 
         case TOK_SIZEOF:
             push_integral_constant(TYPE_LONG, parse_sizeof());
@@ -3319,7 +3297,11 @@ static void parse_iteration_statement(void) {
         if (cur_token != TOK_SEMI) {
             linit  = new_label_dst();
             add_jmp_target_instruction(linit);
-            parse_expression(TOK_COMMA);
+
+            if (cur_token_is_type())
+                parse_declaration_list(parse_declaration_specifiers());
+            else
+                parse_expression(TOK_COMMA);
         }
         consume(TOK_SEMI, ";");
 
@@ -3396,7 +3378,7 @@ static void parse_iteration_statement(void) {
 
 static void parse_compound_statement(void) {
     consume(TOK_LCURLY, "{");
-    while (cur_token != TOK_RCURLY) parse_statement();
+    while (cur_token != TOK_RCURLY) parse_block_item();
 
     // The scope must be exited before parsing of }, so that the lexer lexes the next token in the correct scope.
     exit_scope();
@@ -3509,7 +3491,7 @@ static void parse_case_statement(void) {
     ir = org_ir;
 
     add_jmp_target_instruction(ldst);
-    if (cur_token != TOK_CASE && cur_token != TOK_RCURLY) parse_statement();
+    if (cur_token != TOK_RCURLY) parse_statement();
 }
 
 static void parse_default_statement() {
@@ -3593,6 +3575,7 @@ static void parse_label_statement(char *identifier) {
         Value *dst = strmap_get(cur_function_symbol->function->labels, identifier);
         if (dst) error("Duplicate label %s", identifier);
         strmap_put(cur_function_symbol->function->labels, parser_wstrdup(identifier), ldst);
+        if (cur_token != TOK_RCURLY) parse_statement();
     }
     else {
         rewind_lexer();
@@ -3605,7 +3588,7 @@ static void parse_goto_statement(void) {
     next();
 
     // A typedef an also be used as an identifier in a goto statement
-    if (cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_IDENTIFIER) panic_with_line_number("Expected an identifier");
+    if (cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_IDENTIFIER) error("Expected an identifier");
 
     Value *ldst = strmap_get(cur_function_symbol->function->labels, cur_identifier);
     if (ldst)
@@ -3652,29 +3635,51 @@ static void add_va_register_save_area(void) {
     add_parser_instruction(IR_DECL_LOCAL_COMP_OBJ, 0, v, 0);
 }
 
-// Parse a statement
-static void parse_statement(void) {
+// Parse a declaration or statement in a compound statement
+static void parse_block_item(void) {
     vs = vs_start; // Reset value stack
 
-    if (base_type) free_and_null(base_type);
-    base_type = 0; // Reset base type
+    if (cur_token == TOK_TYPEDEF) {
+        parse_typedef();
+        consume(TOK_SEMI, ";");
+        return;
+    }
 
-    if (cur_token_is_type()) {
-        int is_typedef = cur_token == TOK_TYPEDEF_TYPE;
-        char *identifier = parser_wstrdup(cur_identifier);
+    if (!cur_token_is_type()) {
+        parse_statement();
+        return;
+    }
 
-        if (base_type) wfree(base_type);
-        base_type = parse_declaration_specifiers();
-        if (cur_token == TOK_SEMI && (base_type->type->type == TYPE_STRUCT_OR_UNION || base_type->type->type == TYPE_ENUM))
-            next();
-        else if (cur_token == TOK_COLON && is_typedef)
-            // Special case for a typedef used as a labelled statement
-            parse_label_statement(identifier);
-        else
-            parse_expression(TOK_COMMA);
+    int is_typedef = cur_token == TOK_TYPEDEF_TYPE;
+    char *identifier = parser_wstrdup(cur_identifier);
+
+    BaseType *base_type = parse_declaration_specifiers();
+
+    if (cur_token == TOK_COLON && is_typedef) {
+        // Special case for a typedef used as a labelled statement
+        wfree(base_type);
+        parse_label_statement(identifier);
+        return;
     }
 
-    else switch (cur_token) {
+    if (cur_token == TOK_SEMI && (base_type->type->type == TYPE_STRUCT_OR_UNION || base_type->type->type == TYPE_ENUM))
+        wfree(base_type);
+    else {
+        if (cur_token != TOK_IDENTIFIER && cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_MULTIPLY && cur_token != TOK_LPAREN)
+            error("Unexpected token %d in declaration", cur_token);
+
+        parse_declaration_list(base_type);
+        if (cur_token != TOK_SEMI) error("Missing expression or ; after declaration");
+    }
+
+    consume(TOK_SEMI, ";");
+}
+
+// Parse a statement
+static void parse_statement(void) {
+    vs = vs_start; // Reset value stack
+
+    switch (cur_token) {
         case TOK_SEMI:
             // Empty statement
             next();
@@ -3725,7 +3730,9 @@ static void parse_statement(void) {
             parse_return_statement();
             break;
 
-        case TOK_IDENTIFIER: {
+        // A typedef can also be used as a label
+        case TOK_IDENTIFIER:
+        case TOK_TYPEDEF_TYPE: {
             char *identifier = parser_wstrdup(cur_identifier);
             next();
             parse_label_statement(identifier);
@@ -3942,8 +3949,6 @@ void parse(void) {
                         // An initializer makes it a definition, even with extern
                         if (symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL) symbol->linkage = LINKAGE_IMPLICIT_EXTERNAL;
 
-                        BaseType *old_base_type = base_type;
-                        base_type = 0;
                         next();
                         Value *v = make_global_symbol_value(symbol);
 
@@ -3953,7 +3958,6 @@ void parse(void) {
                         is_object_initializer = 1;
                         parse_initializer(type_iterator(v->type), v, 0);
                         symbol->type = v->type;
-                        base_type = old_base_type;
                     }
                 }
 
@@ -4023,7 +4027,6 @@ void init_parser(void) {
 
     allocated_strings = new_list(128);
 
-    base_type = 0;
 
     origin_filenames = new_strmap();
     allocated_origins = new_list(1024);
@@ -4031,7 +4034,6 @@ void init_parser(void) {
 }
 
 void free_parser(void) {
-    if (base_type) free (base_type);
 
     wfree(string_literals);
 
-- 
2.43.0


From b310f3cbc40b84b46e1590640ec5d58a8f42e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 66/93] fix: decide on the space between tokens by their
 spelling

---
 cpp.c | 95 +++++++++++++++++++++++++++++++----------------------------
 wcc.h |  1 +
 2 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/cpp.c b/cpp.c
index eea0b5a..8444581 100644
--- a/cpp.c
+++ b/cpp.c
@@ -466,51 +466,42 @@ void strip_backslash_newlines(void) {
     lm->next = 0;
 }
 
-// Determine if two tokens that don't have a space in between them already need one.
-// The specs are unclear about this, so I followed gcc's cpp_avoid_paste() in lex.c.
+#define is_digit(c) (c >= '0' && c <= '9')
+#define is_identifier_character(c) ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || is_digit(c) || c == '_')
+
+// Determine if two tokens that don't have a space in between them already need one, i.e. if
+// they would otherwise be read as other tokens. Pasted tokens don't have a kind of their own,
+// so this goes by the spelling.
 static int need_token_space(CppToken *t1, CppToken *t2) {
-    if (t2->kind == '=') {
-        switch(t1->kind) {
-            case '=':
-            case '!':
-            case '+':
-            case '-':
-            case '*':
-            case '/':
-            case '%':
-            case '<':
-            case '>':
-            case '&':
-            case '|':
-            case '^':
-                return 1;
-        }
-    }
+    if (!t1->str || !t2->str || !t1->str[0] || !t2->str[0]) return 0;
+
+    int length = strlen(t1->str);
+    char first = t1->str[0];
+    char last = t1->str[length - 1];
+    char next = t2->str[0];
+
+    int is_number = is_digit(first) || (first == '.' && is_digit(t1->str[1]));
+
+    if (last == '"' || last == '\'') return next == '"' || next == '\'';
 
-         if (t1->kind == '<' && t2->kind == '<') return 1;
-    else if (t1->kind == '>' && t2->kind == '>') return 1;
-    else if (t1->kind == '+' && t2->kind == '+') return 1;
-    else if (t1->kind == '-' && t2->kind == '-') return 1;
-    else if (t1->kind == '&' && t2->kind == '&') return 1;
-    else if (t1->kind == '|' && t2->kind == '|') return 1;
-    else if (t1->kind == '-' && t2->kind == '>') return 1;
-    else if (t1->kind == '/' && t2->kind == '*') return 1;
-
-    else if (t1->kind == '+' && t2->kind == CPP_TOK_INC) return 1;
-    else if (t1->kind == '-' && t2->kind == CPP_TOK_DEC) return 1;
-    else if (t1->kind == '.' && t2->kind == CPP_TOK_NUMBER) return 1;
-
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_STRING_LITERAL && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
+    if (is_identifier_character(last) && is_identifier_character(next)) return 1;
+    if (is_identifier_character(last) && (next == '"' || next == '\'')) return 1;
+    if (is_number && next == '.') return 1;
+    if (is_number && (last == 'e' || last == 'E') && (next == '+' || next == '-')) return 1;
+    if (last == '.' && (next == '.' || is_digit(next))) return 1;
+    if (is_number && is_identifier_character(next)) return 1;
+
+    // Other tokens
+    if (length > 1) return next == '=' && (!strcmp(t1->str, "<<") || !strcmp(t1->str, ">>"));
+    if (next == '=' && strchr("=!+-*/%<>&|^", last)) return 1;
+    if (last == next && strchr("<>+-&|#/", last)) return 1;
+    if (last == '-' && next == '>') return 1;
+    if (last == '/' && next == '*') return 1;
 
     return 0;
 }
 
-static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, int collapse_whitespace, int update_output) {
+static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, int collapse_whitespace, int avoid_paste, int update_output) {
     if (!tokens) return;
 
     CppToken *prev = 0;
@@ -535,9 +526,9 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
 
         if (!is_eol && token->whitespace && !collapse_whitespace)
             append_to_string_buffer(sb, token->whitespace);
-        else if (!is_eol && token->whitespace && collapse_whitespace)
+        else if (!is_eol && (token->whitespace || token->is_separated) && collapse_whitespace)
             append_to_string_buffer(sb, " ");
-        else if (prev && need_token_space(prev, token))
+        else if (prev && avoid_paste && need_token_space(prev, token))
             append_to_string_buffer(sb, " ");
         else if (seen_whitespace && collapse_whitespace)
             append_to_string_buffer(sb, " ");
@@ -565,7 +556,7 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
 }
 
 static void append_tokens_to_output(CppToken *tokens) {
-    append_tokens_to_string_buffer(output, tokens, 0, 1);
+    append_tokens_to_string_buffer(output, tokens, 0, 1, 1);
 }
 
 #define advance_ip() do { \
@@ -1049,7 +1040,7 @@ static CppToken *expand(CppToken *is) {
 static CppToken *stringize(CppToken *ts) {
     StringBuffer *rendered = new_string_buffer(128);
 
-    append_tokens_to_string_buffer(rendered, ts, 1, 0);
+    append_tokens_to_string_buffer(rendered, ts, 1, 0, 0);
 
     terminate_string_buffer(rendered);
 
@@ -1113,6 +1104,20 @@ static CppToken *stringize(CppToken *ts) {
     return result;
 }
 
+// Make a token that stands for an empty parameter on the left side of a ##. They don't survive substitution.
+static CppToken *make_placemarker(void) {
+    CppToken *result = new_cpp_token(CPP_TOK_OTHER);
+    result->str = wstrdup("");
+    result = dup_cpp_token(result);
+    return result;
+}
+
+static int is_identifier_spelling(char *str) {
+    if (is_digit(*str)) return 0;
+    while (is_identifier_character(*str)) str++;
+    return !*str;
+}
+
 // Merge two token lists together.
 // ls is mutated and the result is ls.
 static CppToken *glue(CppToken *ls, CppToken *rs) {
@@ -1794,7 +1799,7 @@ static void parse_directive(void) {
 
             if (!state.conditional_include_stack->skipping) {
                 StringBuffer *message = new_string_buffer(128);
-                append_tokens_to_string_buffer(message, gather_tokens_until_eol(), 0, 0);
+                append_tokens_to_string_buffer(message, gather_tokens_until_eol(), 0, 1, 0);
                 warning("%s", message->data);
             }
 
@@ -1805,7 +1810,7 @@ static void parse_directive(void) {
 
             if (!state.conditional_include_stack->skipping) {
                 StringBuffer *message = new_string_buffer(128);
-                append_tokens_to_string_buffer(message, gather_tokens_until_eol(), 0, 0);
+                append_tokens_to_string_buffer(message, gather_tokens_until_eol(), 0, 1, 0);
                 error("%s", message->data);
             }
 
diff --git a/wcc.h b/wcc.h
index 28b70bd..35ad75e 100644
--- a/wcc.h
+++ b/wcc.h
@@ -638,6 +638,7 @@ enum {
 typedef struct cpp_token {
     int kind;               // One of CPP_TOK*
     char *whitespace;       // Preceding whitespace
+    int is_separated;       // Preceded by whitespace that only matters when stringizing
     char *str;              // The token text
     int line_number;
     int line_number_offset; // Amended line number due to #line
-- 
2.43.0


From a58821a5606e6708251712d5ee6d4696f1b5d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 67/93] fix: empty operands of ##

---
 cpp.c | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/cpp.c b/cpp.c
index 8444581..d03f23c 100644
--- a/cpp.c
+++ b/cpp.c
@@ -245,6 +245,20 @@ static CppToken *dup_cll(CppToken *src) {
     return dst;
 }
 
+// Duplicate an operand of ##, leaving out any newlines at the start and at the end
+static CppToken *dup_paste_operand(CppToken *src) {
+    CppToken *last = 0;
+    for (CppToken *tok = src ? src->next : 0; tok; tok = cll_next(src, tok))
+        if (tok->kind != CPP_TOK_EOL) last = tok;
+    if (!last) return 0;
+
+    CppToken *dst = 0;
+    for (CppToken *tok = src->next; ; tok = tok->next) {
+        if (dst || tok->kind != CPP_TOK_EOL) dst = cll_append_token(dst, dup_cpp_token(tok));
+        if (tok == last) return dst;
+    }
+}
+
 // Free a CPP token
 static void free_cpp_token(CppToken *token) {
     if (token->str) wfree(token->str);
@@ -1125,9 +1139,10 @@ static CppToken *glue(CppToken *ls, CppToken *rs) {
     if (rs == 0) error("Attempt to glue an empty right side");
 
     // Mutating ls, this is allowed since ls is append only
+    int is_placemarker = !ls->str[0];
     wasprintf(&ls->str, "%s%s", ls->str, rs->next->str);
     append_to_list(allocated_strings, ls->str);
-    ls->kind = CPP_TOK_OTHER;
+    ls->kind = is_placemarker ? rs->next->kind : is_identifier_spelling(ls->str) ? CPP_TOK_IDENTIFIER : CPP_TOK_OTHER;
     ls->hide_set = safe_strset_intersection(ls->hide_set, rs->next->hide_set);
 
     // Copy all elements from the right side except the first
@@ -1161,11 +1176,9 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
     CppToken *tok = is_head;
 
     CppToken *tok1 = cll_next(is, tok);
-    CppToken *tok2 = tok1 ? cll_next(is, tok1) : 0;
 
     int tok_fp_index = fp ? (int) (long) strmap_get(fp, tok->str) : 0;
     int tok1_fp_index = fp && tok1 ? (int) (long) strmap_get(fp, tok1->str) : 0;
-    int tok2_fp_index = fp && tok2 ? (int) (long) strmap_get(fp, tok2->str) : 0;
 
     // # FP
     if (tok->kind == CPP_TOK_HASH && tok1_fp_index) {
@@ -1177,11 +1190,9 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // ## FP
     if (tok->kind == CPP_TOK_PASTE && tok1_fp_index) {
-        CppToken *replacement = ap[tok1_fp_index - 1];
-        if (!replacement)
-            return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-        else
-            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, dup_cll(replacement)));
+        CppToken *right = dup_paste_operand(ap[tok1_fp_index - 1]);
+        if (right) os = glue(os, right);
+        return subst(cll_from_next(is, tok1), fp, ap, hs, os);
     }
 
     // ## TS
@@ -1193,20 +1204,10 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // FP ##
     if (tok_fp_index && tok1 && tok1->kind == CPP_TOK_PASTE) {
-        CppToken *replacement = ap[tok_fp_index - 1];
-        if (!replacement) {
-            if (tok2 && tok2_fp_index) {
-                // (empty) ## (replacement2) ...
-                CppToken *replacement2 = ap[tok2_fp_index - 1];
-                return subst(cll_from_next(is, tok2), fp, ap, hs, concat_clls(os, dup_cll(replacement2)));
-            }
-            else
-                // (empty) ## (empty) ...
-                return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-        }
-        else
-            // (replacement) ## ...
-            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, dup_cll(replacement)));
+        CppToken *left = dup_paste_operand(ap[tok_fp_index - 1]);
+        if (!left) left = make_placemarker();
+        left->next->whitespace = tok->whitespace;
+        return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, left));
     }
 
     // FP
@@ -1235,6 +1236,8 @@ static CppToken *hsadd(StrSet *hs, CppToken *ts) {
 
     CppToken *result = 0;
     for (CppToken *tok = ts->next; tok; tok = cll_next(ts, tok)) {
+        if (tok->str && !tok->str[0]) continue; // A placemarker
+
         CppToken *new_token = dup_cpp_token(tok);
 
         if (new_token->hide_set)
-- 
2.43.0


From bef1a4cb559d6143e27b88c6fe7adf225f8fa549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 68/93] fix: unterminated invocations and the amount of macro
 arguments

---
 cpp.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cpp.c b/cpp.c
index d03f23c..77be6d4 100644
--- a/cpp.c
+++ b/cpp.c
@@ -874,7 +874,7 @@ static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
 // Returns a ptr to the token sequences for each actual parameter.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
-CppToken **make_function_actual_parameters(CppToken **ts) {
+static CppToken **make_function_actual_parameters(CppToken **ts, CppToken *tail, int *count) {
     CppToken **result = wcalloc(MAX_CPP_MACRO_PARAM_COUNT, sizeof(CppToken *));
 
     int parenthesis_nesting_level = 0;
@@ -888,6 +888,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
         if (token->kind == CPP_TOK_RPAREN && !parenthesis_nesting_level) {
             // We're not in nested parentheses
             result[index++] = current_actual;
+            *count = index;
             return result;
         }
         else if (token->kind == CPP_TOK_RPAREN) {
@@ -903,6 +904,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
         else if (token->kind == CPP_TOK_COMMA && !parenthesis_nesting_level) {
             // Finish current ap and start next ap
             result[index++] = current_actual;
+            if (index == MAX_CPP_MACRO_PARAM_COUNT) error("Exceeded max CPP function macro param count");
             current_actual = 0;
         }
         else {
@@ -910,7 +912,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
             add_token_to_actuals();
         }
 
-        *ts =(*ts)->next;
+        *ts = cll_next(tail, token);
     }
 }
 
@@ -1009,12 +1011,12 @@ static CppToken *expand(CppToken *is) {
         CppToken *directive_token = tok;
         StrSet *directive_token_hs = tok->hide_set;
         tok = cll_next(is, tok1);
-        CppToken **actuals = make_function_actual_parameters(&tok);
-        if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
+        int actuals_count;
+        CppToken **actuals = make_function_actual_parameters(&tok, is, &actuals_count);
 
-        int actuals_count = 0;
-        for (CppToken **tok = actuals; *tok; tok++, actuals_count++);
-        if (actuals_count > directive->param_count) error("Mismatch in number of macro parameters");
+        // A macro without parameters has an empty actual parameter
+        int is_empty = !directive->param_count && actuals_count == 1 && is_blank_sequence(actuals[0]);
+        if (actuals_count != directive->param_count && !is_empty) error("Mismatch in number of macro parameters");
 
         StrSet *rparen_hs = tok->hide_set;
 
-- 
2.43.0


From db9f3159a5b935425768a45664260ec5bff903f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 69/93] fix: stringizing, # without a parameter, definition of
 defined, long whitespace, redefinitions

---
 cpp.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/cpp.c b/cpp.c
index 77be6d4..b8f43d0 100644
--- a/cpp.c
+++ b/cpp.c
@@ -588,8 +588,8 @@ static void advance_ip_by_count(int count) {
 }
 
 static void add_to_whitespace(char **whitespace, int *whitespace_pos, char c) {
-    if (!*whitespace) *whitespace = wmalloc(1024);
-    if (*whitespace_pos == 1024) panic("Ran out of whitespace buffer");
+    // Grow the buffer every time it is full, leaving space for the terminating zero
+    if (!(*whitespace_pos % 1024)) *whitespace = wrealloc(*whitespace, *whitespace_pos + 1024 + 1);
     (*whitespace)[(*whitespace_pos)++] = c;
 }
 
@@ -870,7 +870,8 @@ static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
 #define add_token_to_actuals() current_actual = cll_append_token(current_actual, dup_cpp_token(token));
 
 // Parse function-like macro call, starting with the '('
-// Loop over ts; ts is advanced up to the enclosing ')'
+// Loop over ts; ts is advanced up to the enclosing ')', tail is the last token of the sequence.
+// The amount of parameters is put in count.
 // Returns a ptr to the token sequences for each actual parameter.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
@@ -916,6 +917,14 @@ static CppToken **make_function_actual_parameters(CppToken **ts, CppToken *tail,
     }
 }
 
+// Does a sequence have nothing but newlines?
+static int is_blank_sequence(CppToken *ts) {
+    for (CppToken *tok = ts ? ts->next : 0; tok; tok = cll_next(ts, tok))
+        if (tok->kind != CPP_TOK_EOL) return 0;
+
+    return 1;
+}
+
 void free_function_actual_parameters(CppToken **actuals) {
     wfree(actuals); // The tokens are freed as part of the garbage freeing
 }
@@ -1074,11 +1083,11 @@ static CppToken *stringize(CppToken *ts) {
 
         if (c == '"') {
             append_to_string_buffer(escaped, "\\\"");
-            in_string = !in_string;
+            if (!in_char) in_string = !in_string;
         }
         else if (c == '\'') {
             append_to_string_buffer(escaped, "'");
-            in_char = !in_char;
+            if (!in_string) in_char = !in_char;
         }
         else if (c == '\\') {
             char c2 = s[1];
@@ -1185,7 +1194,9 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
     // # FP
     if (tok->kind == CPP_TOK_HASH && tok1_fp_index) {
         CppToken *replacement = ap[tok1_fp_index - 1];
-        os = cll_append_token(os, stringize(replacement));
+        CppToken *string = stringize(replacement);
+        string->is_separated = !!tok->whitespace;
+        os = cll_append_token(os, string);
 
         return subst(cll_from_next(is, tok1), fp, ap, hs, os);
     }
@@ -1450,6 +1461,13 @@ static Directive *parse_define_tokens(void) {
             cpp_next();
 
             tokens = parse_define_replacement_tokens();
+
+            // Every # must be followed by a parameter
+            for (CppToken *tok = tokens ? tokens->next : 0; tok; tok = cll_next(tokens, tok)) {
+                if (tok->kind != CPP_TOK_HASH) continue;
+                CppToken *next = cll_next(tokens, tok);
+                if (!next || !strmap_get(directive->param_identifiers, next->str)) error("# is not followed by a macro parameter");
+            }
         }
     }
 
@@ -1539,7 +1557,7 @@ static long parse_conditional_expression() {
         }
 
     StringBuffer *rendered = new_string_buffer(128);
-    append_tokens_to_string_buffer(rendered, expanded, 1, 0);
+    append_tokens_to_string_buffer(rendered, expanded, 1, 1, 0);
 
     char *data = rendered->data;
     free_string_buffer(rendered, 0);
@@ -1629,8 +1647,8 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
     }
 
     // Check replacement lists are identical
-    CppToken *t1 = d1->tokens;
-    CppToken *t2 = d2->tokens;
+    CppToken *t1 = d1->tokens ? d1->tokens->next : 0;
+    CppToken *t2 = d2->tokens ? d2->tokens->next : 0;
 
     int identical = 1;
     while (t1 && t2) {
@@ -1639,7 +1657,7 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
             break;
         }
 
-        if (strcmp(t1->str, t2->str)) {
+        if (strcmp(t1->str, t2->str) || !t1->whitespace != !t2->whitespace) {
             identical = 0;
             break;
         }
@@ -1648,7 +1666,6 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
         t2 = cll_next(d2->tokens, t2);
     }
 
-
     if (!!t1 != !!t2) identical = 0;
     if (!identical) warning("Macro %s redefined", identifier);
 }
@@ -1672,6 +1689,7 @@ static void parse_directive(void) {
 
             if (!state.conditional_include_stack->skipping) {
                 if (!is_identifier(state.token)) error("Expected identifier");
+                if (state.token->kind == CPP_TOK_DEFINED) error("Cannot define \"defined\"");
 
                 char *identifier = state.token->str;
                 cpp_next();
@@ -1694,6 +1712,7 @@ static void parse_directive(void) {
 
             if (!state.conditional_include_stack->skipping) {
                 if (!is_identifier(state.token)) error("Expected identifier");
+                if (state.token->kind == CPP_TOK_DEFINED) error("Cannot undefine \"defined\"");
                 Directive *existing_directive = strmap_get(directives, state.token->str);
                 if (existing_directive) free_directive(existing_directive);
                 strmap_delete(directives, state.token->str);
-- 
2.43.0


From f937afb1eb9820675c81f95662d4a0442da8a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 70/93] fix: malformed numbers, character constants and string
 literals are errors

---
 lexer.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lexer.c b/lexer.c
index 7f8c9a2..c5f2678 100644
--- a/lexer.c
+++ b/lexer.c
@@ -88,6 +88,13 @@ static void skip_whitespace(void) {
     }
 }
 
+// A number extends over everything that looks like one, nothing must be left over after it has been lexed
+static void check_end_of_number(void) {
+    if (ip >= input_size) return;
+    char c = input[ip];
+    if (c == '.' || c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) error("Invalid number");
+}
+
 // Lex U, L, LL integer constant suffixes and determine type
 // See http://port70.net/~nsz/c/c99/n1256.html#6.4.4.1p5
 static void finish_integer_constant(int is_decimal) {
@@ -96,11 +103,17 @@ static void finish_integer_constant(int is_decimal) {
     int is_unsigned = 0;
 
     while (1) {
-        if (ip < input_size && (i[ip] == 'U' || i[ip] == 'u')) { is_unsigned = 1; ip++; }
-        else if (ip < input_size && (i[ip] == 'L' || i[ip] == 'l')) { is_long = 1; ip++; }
+        if (!is_unsigned && ip < input_size && (i[ip] == 'U' || i[ip] == 'u')) { is_unsigned = 1; ip++; }
+        else if (!is_long && ip < input_size && (i[ip] == 'L' || i[ip] == 'l')) {
+            is_long = 1;
+            ip++;
+            if (ip < input_size && i[ip] == i[ip - 1]) ip++; // LL
+        }
         else break;
     }
 
+    check_end_of_number();
+
     int may_not_be_unsigned = is_decimal && !is_unsigned;
 
     if (!is_unsigned && !is_long && cur_long >= 0 && cur_long < 0x80000000); // int
@@ -138,6 +151,8 @@ void lex_non_hex_literal(void) {
 
     if (!is_floating_point && has_leading_zero) {
         // It's an octal number
+        for (int j = start_ip; j < ip; j++)
+            if (i[j] >= '8') error("Invalid digit in octal constant");
         cur_token = TOK_INTEGER;
         cur_long = octal_integer;
         finish_integer_constant(0);
@@ -158,7 +173,8 @@ void lex_non_hex_literal(void) {
 
         int type = TYPE_DOUBLE;
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
-        if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        else if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        check_end_of_number();
 
         // The value must be representable in the type
         if (type == TYPE_FLOAT) cur_long_double = strtof(literal, 0);
@@ -211,7 +227,7 @@ void lex_single_string_literal(int *size) {
     int *data = (int *) cur_string_literal.data;
     char *i = input;
 
-    while (input_size - ip >= 1 && i[ip] != '"') {
+    while (input_size - ip >= 1 && i[ip] != '"' && i[ip] != '\n') {
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
         else if (input_size - ip >= 2 && i[ip] == '\\') {
                  if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
@@ -343,7 +359,10 @@ void next(void) {
         else if (c1 == '0' && input_size - ip >= 2 && (i[ip+1] == 'x' || i[ip+1] == 'X')) {
             ip += 2;
             cur_token = TOK_INTEGER;
+            int start_ip = ip;
             lex_hex_literal();
+            if (ip == start_ip) error("Expected hexadecimal digits");
+            if ((i[ip - 1] == 'e' || i[ip - 1] == 'E') && ip < input_size && (i[ip] == '+' || i[ip] == '-')) error("Invalid number");
             finish_integer_constant(0);
         }
 
@@ -395,7 +414,7 @@ void next(void) {
 
             int char_count = 0;
             long value = 0;
-            while (input_size - ip >= 1 && i[ip] != '\'') {
+            while (input_size - ip >= 1 && i[ip] != '\'' && i[ip] != '\n') {
                 if (i[ip] != '\\') cur_long = i[ip++];
                 else {
                     ip++;
@@ -420,6 +439,7 @@ void next(void) {
                 value = is_wide_char ? cur_long : (value << 8) + (cur_long & 0xff);
                 char_count++;
             }
+            if (i[ip] != '\'') error("Expecting terminating ' in character literal");
             ip++;
 
             if (!char_count) error("Empty character literal");
-- 
2.43.0


From 7f851fafd63bfeb1d852500fda61c64cbe4b1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 71/93] fix: reject float and string constants in #if

---
 constexpr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index 5efc0a7..0f9b0db 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -453,11 +453,13 @@ Value *parse_constant_expression(int level) {
             break;
 
         case TOK_FLOATING_POINT_NUMBER:
+            if (integers_are_longs) error("Floating point constant in preprocessor expression");
             value = new_floating_point_constant(cur_lexer_type->type, cur_long_double);
             next();
             break;
 
         case TOK_STRING_LITERAL:
+            if (integers_are_longs) error("String literal in preprocessor expression");
             value = make_string_literal_value_from_cur_string_literal();
             next();
             break;
-- 
2.43.0


From a870ca93730f23664fd694a7061ffc80ae2b0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 72/93] fix: locate unknown label errors at the goto

---
 parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 8f42416..c672fd5 100644
--- a/parser.c
+++ b/parser.c
@@ -3614,7 +3614,12 @@ static void backpatch_gotos(void) {
         GotoBackPatch *gbp = gbp_cll->target;
 
         Value *ldst = strmap_get(cur_function_symbol->function->labels, gbp->identifier);
-        if (!ldst) error("Unknown label %s", gbp->identifier);
+        if (!ldst) {
+            // Locate the error at the goto
+            cur_filename = gbp->ir->origin->filename;
+            cur_line = gbp->ir->origin->line_number;
+            error("Unknown label %s", gbp->identifier);
+        }
         gbp->ir->src1 = ldst;
         wfree(gbp);
 
-- 
2.43.0


From 09c8d3c326d95f2ee4966579d02da87793c79e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 73/93] fix: line numbers and filenames of expansions, markers
 and includes

---
 cpp.c | 109 ++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 67 insertions(+), 42 deletions(-)

diff --git a/cpp.c b/cpp.c
index b8f43d0..17806e0 100644
--- a/cpp.c
+++ b/cpp.c
@@ -43,6 +43,8 @@ typedef struct cpp_state {
 
 CppState state;
 
+static CppToken *expanding_token;  // The macro that is being expanded, if any
+
 List *allocated_tokens;            // Keep track of all wmalloc'd tokens
 List *allocated_tokens_duplicates; // Keep track of all wmalloc'd shallow copied tokens
 List *allocated_strsets;
@@ -95,8 +97,12 @@ void debug_print_cll_token_sequence(CppToken *ts) {
 
 // Set cur_filename and cur_line globals from CPP state
 void get_cpp_filename_and_line() {
-    cur_line = state.line_number_offset + state.line_number;
-    cur_filename = state.filename;
+    // Errors in an expansion are at the macro, the lexer is already past it
+    if (expanding_token)
+        cur_line = expanding_token->line_number_offset + expanding_token->line_number;
+    else
+        cur_line = state.line_number_offset + state.line_number;
+    cur_filename = state.override_filename ? state.override_filename : state.filename;
 }
 
 static void init_cpp_from_fh(FILE *f, char *path) {
@@ -515,6 +521,16 @@ static int need_token_space(CppToken *t1, CppToken *t2) {
     return 0;
 }
 
+// Output sufficient newlines to catch up with token->line_number.
+// This ensures that each line in the input ends up on the same line
+// in the output.
+static void catch_up_output_lines(CppToken *token) {
+    while (state.output_line_number < token->line_number) {
+        state.output_line_number++;
+        append_to_string_buffer(output, "\n");
+    }
+}
+
 static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, int collapse_whitespace, int avoid_paste, int update_output) {
     if (!tokens) return;
 
@@ -538,6 +554,8 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
 
         if (!token) return;
 
+        if (update_output && !prev && !is_eol) catch_up_output_lines(token);
+
         if (!is_eol && token->whitespace && !collapse_whitespace)
             append_to_string_buffer(sb, token->whitespace);
         else if (!is_eol && (token->whitespace || token->is_separated) && collapse_whitespace)
@@ -556,15 +574,7 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
         if (update_output) {
             if (is_eol) state.output_line_number++;
 
-            if (is_eol && token) {
-                // Output sufficient newlines to catch up with token->line_number.
-                // This ensures that each line in the input ends up on the same line
-                // in the output.
-                while (state.output_line_number < token->line_number) {
-                    state.output_line_number++;
-                    append_to_string_buffer(sb, "\n");
-                }
-            }
+            if (is_eol && token) catch_up_output_lines(token);
         }
     } while (token != head);
 }
@@ -857,14 +867,12 @@ static void cpp_next() {
     return;
 }
 
-// Set line number on all tokens in ts
-static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
-    CppToken *tail = ts;
-    ts = ts->next;
-    do {
-        ts->line_number = line_number;
-        ts = ts->next;
-    } while (ts != tail);
+// Set line number on all tokens in ts to that of token
+static void set_line_number_on_token_sequence(CppToken *ts, CppToken *token) {
+    for (CppToken *tok = ts->next; tok; tok = cll_next(ts, tok)) {
+        tok->line_number = token->line_number;
+        tok->line_number_offset = token->line_number_offset;
+    }
 }
 
 #define add_token_to_actuals() current_actual = cll_append_token(current_actual, dup_cpp_token(token));
@@ -959,7 +967,7 @@ StrSet *cpp_strset_intersection(StrSet *set1, StrSet *set2) {
 
 // Implementation of Dave Prosser's C Preprocessing Algorithm
 // This is the main macro expansion function: expand an input sequence into an output sequence.
-static CppToken *expand(CppToken *is) {
+static CppToken *expand_macros(CppToken *is) {
     if (!is) return 0;
 
     // Skip past any non-directives, to eliminate unnecessary recursion
@@ -978,7 +986,7 @@ static CppToken *expand(CppToken *is) {
 
         // Make is the remainder
         is_tail->next = tok; // Make tok the head of the cll
-        CppToken *result = concat_clls(left, expand(is));
+        CppToken *result = concat_clls(left, expand_macros(is));
         return result;
     }
 
@@ -990,9 +998,11 @@ static CppToken *expand(CppToken *is) {
         // return the first token + the expanded rest
         if (is_tail == is_head) return is_tail; // Only one token
         CppToken *t = dup_cpp_token(tok);
-        return concat_clls(t, expand(cll_from_next(is, tok)));
+        return concat_clls(t, expand_macros(cll_from_next(is, tok)));
     }
 
+    expanding_token = tok;
+
     Directive *directive = 0;
     if (tok->str) directive = strmap_get(directives, tok->str);
 
@@ -1007,11 +1017,11 @@ static CppToken *expand(CppToken *is) {
         CppToken *substituted = subst(replacement_tokens, 0, 0, hs, 0);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, tok->line_number);
+            set_line_number_on_token_sequence(substituted, tok);
             substituted->next->whitespace = tok->whitespace;
         }
 
-        return expand(concat_clls(substituted, cll_from_next(is, tok)));
+        return expand_macros(concat_clls(substituted, cll_from_next(is, tok)));
     }
 
     else if (directive && directive->is_function && tok1 && tok1->kind == CPP_TOK_LPAREN) {
@@ -1049,16 +1059,23 @@ static CppToken *expand(CppToken *is) {
         free_function_actual_parameters(actuals);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, directive_token->line_number);
+            set_line_number_on_token_sequence(substituted, directive_token);
             substituted->next->whitespace = directive_token->whitespace;
         }
 
-        return expand(concat_clls(substituted, cll_from_next(is, tok)));
+        return expand_macros(concat_clls(substituted, cll_from_next(is, tok)));
     }
 
     // The first token is an ordinary token, return the first token + the expanded rest
     CppToken *t = dup_cpp_token(tok);
-    return concat_clls(t, expand(cll_from_next(is, tok)));
+    return concat_clls(t, expand_macros(cll_from_next(is, tok)));
+}
+
+static CppToken *expand(CppToken *is) {
+    CppToken *outer_expanding_token = expanding_token;
+    CppToken *result = expand_macros(is);
+    expanding_token = outer_expanding_token;
+    return result;
 }
 
 // Returns a new token which is the stringized version of the input token sequence
@@ -1393,6 +1410,7 @@ static void parse_include() {
     sprintf(buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
     append_to_string_buffer(output, buf);
     wfree(buf);
+    state.output_line_number = state.line_number;
 }
 
 static CppToken *parse_define_replacement_tokens(void) {
@@ -1582,6 +1600,23 @@ static void parse_if_defined(int negate) {
     }
 }
 
+// The next line has the line number in token, followed by an optional filename
+static void set_line(CppToken *token, CppToken *tokens) {
+    state.line_number_offset = atoi(token->str) - state.token->line_number - 1;
+
+    // Amend the next token's line number offset too
+    state.token->line_number_offset = state.line_number_offset;
+
+    token = cll_next(tokens, token);
+
+    if (token && token->kind == CPP_TOK_STRING_LITERAL) {
+        char *filename = wstrdup(token->str + 1);
+        filename[strlen(filename) - 1] = 0;
+        append_to_list(allocated_strings, filename);
+        state.override_filename = filename;
+    }
+}
+
 static void parse_line() {
     CppToken *tokens;
 
@@ -1597,22 +1632,9 @@ static void parse_line() {
     if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
 
     if (token->kind == CPP_TOK_NUMBER) {
-        state.line_number_offset = atoi(token->str) - state.line_number - 1;
-
-        // Amend the next token's line number offset too
-        state.token->line_number_offset = state.line_number_offset;
-
-        token = cll_next(tokens, token);
-
-        if (token && token->kind == CPP_TOK_STRING_LITERAL) {
-            char *filename = token->str;
-            filename[strlen(filename) - 1] = 0;
-            filename++;
-            state.override_filename = filename;
-            cur_filename = token->str;
-        }
-
+        set_line(token, tokens);
         output_line_directive(1, 0, state.token);
+        state.output_line_number = state.token->line_number;
     }
     else
         error("Invalid #line directive");
@@ -1807,7 +1829,10 @@ static void parse_directive(void) {
                 cpp_next();
             }
 
+            if (state.conditional_include_stack->skipping) break;
+
             append_tokens_to_output(expand(tokens));
+            set_line(cll_next(tokens, tokens->next), tokens);
 
             break;
         }
-- 
2.43.0


From fd6eb3799c2b1a2db0e2ea0415ca8a61a39e0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 74/93] fix: conditional directives, #include operands,
 unterminated literals in skipped groups

---
 cpp.c | 67 +++++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/cpp.c b/cpp.c
index 17806e0..b46b51e 100644
--- a/cpp.c
+++ b/cpp.c
@@ -19,6 +19,7 @@ enum hchar_lex_state {
 
 typedef struct conditional_include {
     int matched;    // Is the evaluated controlling expression 1?
+    int seen_else;  // Has the #else been seen?
     int skipping;   // Is a group being skipped?
     struct conditional_include *prev;
 } ConditionalInclude;
@@ -164,7 +165,7 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
     state.line_number = 1;
     state.line_number_offset = 0;
     state.override_filename = 0;
-    state.include_depth = 0;
+    if (first_file) state.include_depth = 0;
 
     cpp_next();
 
@@ -175,6 +176,7 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
     append_to_string_buffer(output, "\n");
 
     cpp_parse();
+    if (state.conditional_include_stack->prev) error("Unterminated #if");
 
     collapse_trailing_newlines(0, 0, 0);
 
@@ -650,6 +652,19 @@ static char *lex_whitespace(void) {
 
 }
 
+// Is the string or character literal at the current position terminated before the end of the line?
+static int is_terminated_literal(char delimiter) {
+    int ip = state.ip + 1;
+    if (state.input[state.ip] == 'L') ip++;
+
+    for (; ip < state.input_size && state.input[ip] != '\n'; ip++) {
+        if (state.input[ip] == delimiter) return 1;
+        if (state.input[ip] == '\\' && delimiter != '>' && state.input[ip + 1] != '\n') ip++;
+    }
+
+    return 0;
+}
+
 static void lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
     int data_offset = 0;
@@ -673,7 +688,7 @@ static void lex_string_and_char_literal(char delimiter) {
             break;
         }
 
-        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\') {
+        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\' && delimiter != '>') {
             if (size + 1 >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
             data[data_offset + 1 + size++] = '\\';
             data[data_offset + 1 + size++] = i[state.ip + 1];
@@ -771,13 +786,13 @@ static void cpp_next() {
         else if (             c1 == ')'                          )  { make_token(CPP_TOK_RPAREN, 1); }
         else if (             c1 == ','                          )  { make_token(CPP_TOK_COMMA, 1); }
 
-        else if ((c1 == '"') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '"'))
+        else if (((c1 == '"') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '"')) && is_terminated_literal('"'))
             lex_string_and_char_literal('"');
 
-        else if ((c1 == '\'') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '\''))
+        else if (((c1 == '\'') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '\'')) && is_terminated_literal('\''))
             lex_string_and_char_literal('\'');
 
-        else if (c1 == '<' && state.hchar_lex_state == HLS_SEEN_INCLUDE) {
+        else if (c1 == '<' && state.hchar_lex_state == HLS_SEEN_INCLUDE && is_terminated_literal('>')) {
             lex_string_and_char_literal('>');
             state.token->kind = CPP_TOK_HCHAR_STRING_LITERAL;
             state.hchar_lex_state = HLS_OTHER;
@@ -1364,9 +1379,6 @@ static void parse_include() {
     if (state.include_depth == MAX_CPP_INCLUDE_DEPTH)
         error("Exceeded maximum include depth %d", MAX_CPP_INCLUDE_DEPTH);
 
-    char *path;
-    int is_system;
-
     int have_pp_tokens = (state.token->kind != CPP_TOK_STRING_LITERAL && state.token->kind != CPP_TOK_HCHAR_STRING_LITERAL);
     CppToken *include_token;
 
@@ -1379,13 +1391,22 @@ static void parse_include() {
         cpp_next();
     }
 
-    if (!include_token || include_token->kind == CPP_TOK_EOL || include_token->kind == CPP_TOK_EOF)
+    // An expansion can have a filename between < and > tokens
+    StringBuffer *path_buffer = new_string_buffer(128);
+    if (include_token && include_token->next->kind == '<' && include_token->kind == '>')
+        append_tokens_to_string_buffer(path_buffer, include_token, 1, 0, 0);
+    else if (include_token && (include_token->kind == CPP_TOK_STRING_LITERAL || include_token->kind == CPP_TOK_HCHAR_STRING_LITERAL))
+        append_to_string_buffer(path_buffer, include_token->str);
+    else
         error("Invalid #include");
+    terminate_string_buffer(path_buffer);
 
     // Remove "" or <> tokens
-    path = &(include_token->str[1]);
+    int is_system = path_buffer->data[0] == '<';
+    if (!is_system && path_buffer->data[0] != '"') error("Invalid #include");
+    char *path = path_buffer->data + 1;
+    if (!path[0] || !path[1]) error("Empty filename in #include");
     path[strlen(path) - 1] = 0;
-    is_system = include_token->kind == CPP_TOK_HCHAR_STRING_LITERAL;
 
     skip_until_eol();
     collapse_trailing_newlines(0, 0, 0);
@@ -1395,6 +1416,8 @@ static void parse_include() {
 
     if (!open_include_file(path, is_system)) error("Unable to find %s in any include paths", path);
 
+    free_string_buffer(path_buffer, 1);
+
     state.include_depth++;
     run_preprocessor_on_file(state.filename, 0);
     state.include_depth--;
@@ -1523,13 +1546,13 @@ static CppToken *expand_defineds(CppToken *is) {
         CppToken *tok1 = cll_next(is, tok);
 
         if (tok->kind == CPP_TOK_DEFINED) {
-            if (tok1 && tok1->kind == CPP_TOK_IDENTIFIER) {
+            if (tok1 && is_identifier(tok1)) {
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok1->str)));
                 tok = cll_next(is, tok1);
             }
             else if (tok1 && tok1->kind == CPP_TOK_LPAREN) {
                 tok = cll_next(is, tok1);
-                if (!tok || tok->kind != CPP_TOK_IDENTIFIER)
+                if (!tok || !is_identifier(tok))
                     error("Expected identifier");
 
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok->str)));
@@ -1567,6 +1590,8 @@ static long parse_conditional_expression() {
     CppToken *expanded_defineds = expand_defineds(tokens);
     CppToken *expanded = expand(expanded_defineds);
 
+    if (!expanded) error("Expected expression");
+
     // Replace identifiers with 0
     for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok))
         if (is_identifier(tok))  {
@@ -1581,7 +1606,9 @@ static long parse_conditional_expression() {
     free_string_buffer(rendered, 0);
     init_lexer_from_string(data);
     Value *value = parse_constant_integer_expression(1);
+    if (cur_token != TOK_EOF) error("Unexpected token after the expression in #if");
     wfree(data);
+    cur_filename = 0; // A warning sets it to the name of the file being preprocessed
     free_lexer();
 
     return value->int_value;
@@ -1627,6 +1654,7 @@ static void parse_line() {
         // Parse #line <number> ...
         tokens = gather_tokens_until_eol();
 
+    if (!tokens) error("Invalid #line directive");
     CppToken *token = tokens->next;
 
     if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
@@ -1771,6 +1799,9 @@ static void parse_directive(void) {
         case CPP_TOK_ELIF: {
             cpp_next();
 
+            if (!state.conditional_include_stack->prev) error("Found an #elif without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #elif after an #else");
+
             // We're skipping a section and found an #elif. Ignore the directive
             if (!state.conditional_include_stack->prev->skipping) {
                 if (state.conditional_include_stack->matched) {
@@ -1791,6 +1822,8 @@ static void parse_directive(void) {
             cpp_next();
 
             if (!state.conditional_include_stack->prev) error("Found an #else without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #else after an #else");
+            state.conditional_include_stack->seen_else = 1;
             if (state.conditional_include_stack->prev->skipping) break;
 
             state.conditional_include_stack->skipping = state.conditional_include_stack->matched;
@@ -1887,13 +1920,13 @@ static void cpp_parse() {
         if (new_line && state.token->kind == CPP_TOK_HASH) {
             append_tokens_to_output(expand(group_tokens));
             parse_directive();
+            skip_until_eol();
             group_tokens = 0;
         }
         else {
-            if (!state.conditional_include_stack->skipping) {
+            if (!state.conditional_include_stack->skipping)
                 group_tokens = cll_append_token(group_tokens, state.token);
-                new_line = (state.token->kind == CPP_TOK_EOL);
-            }
+            new_line = (state.token->kind == CPP_TOK_EOL);
             cpp_next();
         }
     }
@@ -2014,8 +2047,6 @@ char *preprocess(char *filename, List *cli_directive_strings) {    init_cpp();
 
     run_preprocessor_on_file(filename, 1);
 
-    if (state.conditional_include_stack->prev) error("Unterminated #if");
-
     terminate_string_buffer(output);
 
     char *data = output->data;
-- 
2.43.0


From 87fcb2842ad0be4f3336720af5f75b68737995b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 75/93] fix: buffer sizes for long identifiers and filenames

---
 codegen.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 1e1d724..faa6cec 100644
--- a/codegen.c
+++ b/codegen.c
@@ -232,12 +232,17 @@ static int add_long_double_literal(long double value) {
     return floating_point_literal_count++;
 }
 
+// The length of the identifier of a global, if the value is one
+static int identifier_length(Value *v) {
+    return v && v->global_symbol ? strlen(v->global_symbol->global_identifier) : 0;
+}
+
 char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
     char *t = tac->x86_template;
 
     if (!t) return 0;
 
-    char *buffer = wcalloc(1, 128);
+    char *buffer = wcalloc(1, 128 + strlen(t) + identifier_length(tac->src1) + identifier_length(tac->src2) + identifier_length(tac->dst));
     char *result = buffer;
 
     while (*t && *t != ' ') *buffer++ = *t++;
-- 
2.43.0


From ae177f54c1a1edebd792a804e379c830d1e96970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 76/93] fix: buffers of line directives and identifiers

---
 cpp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp.c b/cpp.c
index b46b51e..f1cbaf4 100644
--- a/cpp.c
+++ b/cpp.c
@@ -132,9 +132,9 @@ static void init_cpp_from_fh(FILE *f, char *path) {
 static void output_line_directive(int offset, int add_eol, CppToken *token) {
     if (!token) return;
 
-    char *buf = wmalloc(256);
+    char *buf;
     char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
+    wasprintf(&buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
     append_to_string_buffer(output, buf);
     wfree(buf);
 }
@@ -799,7 +799,7 @@ static void cpp_next() {
         }
 
         else if ((c1 >= 'a' && c1 <= 'z') || (c1 >= 'A' && c1 <= 'Z') || c1 == '_') {
-            char *identifier = wmalloc(1024);
+            char *identifier = wmalloc(MAX_IDENTIFIER_SIZE + 1);
             int j = 0;
             while (((i[state.ip] >= 'a' && i[state.ip] <= 'z') || (i[state.ip] >= 'A' && i[state.ip] <= 'Z') || (i[state.ip] >= '0' && i[state.ip] <= '9') || (i[state.ip] == '_')) && state.ip < state.input_size) {
                 if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
@@ -1428,9 +1428,9 @@ static void parse_include() {
     state = backup_state;
     cur_filename = state.filename;
 
-    char *buf = wmalloc(256);
+    char *buf;
     char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
+    wasprintf(&buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
     append_to_string_buffer(output, buf);
     wfree(buf);
     state.output_line_number = state.line_number;
-- 
2.43.0


From b03cf1a9891696242dfa941aec9e9ff7db105914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 77/93] fix: unterminated comments are errors

---
 cpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index f1cbaf4..eac1dc3 100644
--- a/cpp.c
+++ b/cpp.c
@@ -622,7 +622,7 @@ static char *lex_whitespace(void) {
 
         // Process // comment
         if (state.input_size - state.ip >= 2 && state.input[state.ip] == '/' && state.input[state.ip + 1] == '/') {
-            while (state.input[state.ip] != '\n') advance_ip();
+            while (state.ip < state.input_size && state.input[state.ip] != '\n') advance_ip();
             add_to_whitespace(&whitespace, &whitespace_pos, ' ');
             continue;
         }
@@ -635,6 +635,8 @@ static char *lex_whitespace(void) {
             while (state.input_size - state.ip >= 2 && (state.input[state.ip] != '*' || state.input[state.ip + 1] != '/'))
                 advance_ip();
 
+            if (state.input_size - state.ip < 2) error("Unterminated comment");
+
             advance_ip();
             advance_ip();
 
-- 
2.43.0


From 9b2279920f22c37a9ff7f95d1669dbdc9e006788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 78/93] fix: packed and aligned are identifiers, string
 literals across line markers, hexadecimal escapes without digits

---
 lexer.c  | 63 ++++++++++++++++++++++++++++++--------------------------
 parser.c |  6 ++++--
 wcc.h    |  2 --
 3 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/lexer.c b/lexer.c
index c5f2678..79d8814 100644
--- a/lexer.c
+++ b/lexer.c
@@ -23,7 +23,7 @@ static StringLiteral old_cur_string_literal;
 static void init_lexer(void) {
     ip = 0;
     cur_line = 1;
-    cur_identifier = wmalloc(MAX_IDENTIFIER_SIZE);
+    cur_identifier = wmalloc(MAX_IDENTIFIER_SIZE + 1);
     cur_string_literal.data = wmalloc(MAX_STRING_LITERAL_SIZE * 4);
 
     next();
@@ -201,6 +201,7 @@ static void lex_hex_literal(void) {
     char *i = input;
 
     cur_long = 0;
+    int start_ip = ip;
     while (((i[ip] >= '0' && i[ip] <= '9')  || (i[ip] >= 'A' && i[ip] <= 'F') || (i[ip] >= 'a' && i[ip] <= 'f')) && ip < input_size) {
         cur_long = cur_long * 16 + (
             i[ip] >= 'a'
@@ -210,6 +211,8 @@ static void lex_hex_literal(void) {
                 : i[ip] - '0');
         ip++;
     }
+
+    if (ip == start_ip) error("Expected hexadecimal digits");
 }
 
 void finish_string_literal(int size, int is_wide_char) {
@@ -228,6 +231,8 @@ void lex_single_string_literal(int *size) {
     char *i = input;
 
     while (input_size - ip >= 1 && i[ip] != '"' && i[ip] != '\n') {
+        if (*size + 1 >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
+
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
         else if (input_size - ip >= 2 && i[ip] == '\\') {
                  if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
@@ -261,11 +266,33 @@ void lex_single_string_literal(int *size) {
     if (i[ip] != '"') error("Expecting terminating \" in string literal");
     ip++;
 
-    if (*size >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
-
     data[*size] = 0;
 }
 
+// Lex # <num> "filename" ...
+static void lex_line_marker(void) {
+    char *i = input;
+
+    ip++;
+    skip_whitespace();
+
+    lex_non_hex_literal();
+    skip_whitespace();
+
+    if (i[ip] != '"') error("Expected a filename");
+    char *filename = i + ++ip;
+    while (i[ip] != '"' && i[ip] != '\n' && ip < input_size) ip++;
+
+    if (cur_filename) free_and_null(cur_filename);
+    cur_filename = wmalloc(i + ip - filename + 1);
+    memcpy(cur_filename, filename, i + ip - filename);
+    cur_filename[i + ip - filename] = 0;
+    cur_line = cur_long - 1;
+
+    while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
+    skip_whitespace(); // Skip EOL if present
+}
+
 void lex_string_literal(void) {
     char *i = input;
 
@@ -281,6 +308,9 @@ void lex_string_literal(void) {
         ip += 1;
         lex_single_string_literal(&size);
         skip_whitespace();
+
+        // The next string literal may be on the other side of an #include or #line
+        while (ip < input_size && i[ip] == '#') lex_line_marker();
     }
 
     finish_string_literal(size, is_wide_char);
@@ -359,9 +389,7 @@ void next(void) {
         else if (c1 == '0' && input_size - ip >= 2 && (i[ip+1] == 'x' || i[ip+1] == 'X')) {
             ip += 2;
             cur_token = TOK_INTEGER;
-            int start_ip = ip;
             lex_hex_literal();
-            if (ip == start_ip) error("Expected hexadecimal digits");
             if ((i[ip - 1] == 'e' || i[ip - 1] == 'E') && ip < input_size && (i[ip] == '+' || i[ip] == '-')) error("Invalid number");
             finish_integer_constant(0);
         }
@@ -376,26 +404,7 @@ void next(void) {
         }
 
         else if (i[ip] == '#') {
-            // Lex # <num> "filename" ...
-
-            ip++;
-            skip_whitespace();
-
-            lex_non_hex_literal();
-            skip_whitespace();
-
-            int size = 0;
-            ip++; // Skip the "
-            lex_single_string_literal(&size);
-            finish_string_literal(size, 0);
-
-            if (cur_filename) free_and_null(cur_filename);
-            cur_filename = wstrdup(cur_string_literal.data);
-            cur_line = cur_long - 1;
-
-            while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
-            skip_whitespace(); // Skip EOL if present
-
+            lex_line_marker();
             continue;
         }
 
@@ -491,10 +500,6 @@ void next(void) {
             else if (!strcmp(cur_identifier, "enum"         )) { cur_token = TOK_ENUM;      }
             else if (!strcmp(cur_identifier, "sizeof"       )) { cur_token = TOK_SIZEOF;    }
             else if (!strcmp(cur_identifier, "__attribute__")) { cur_token = TOK_ATTRIBUTE; }
-            else if (!strcmp(cur_identifier, "packed"       )) { cur_token = TOK_PACKED;    }
-            else if (!strcmp(cur_identifier, "__packed__"   )) { cur_token = TOK_PACKED;    }
-            else if (!strcmp(cur_identifier, "aligned"      )) { cur_token = TOK_ALIGNED;   }
-            else if (!strcmp(cur_identifier, "__aligned__"  )) { cur_token = TOK_ALIGNED;   }
             else if (!strcmp(cur_identifier, "__restrict"   )) { cur_token = TOK_RESTRICT;  }
             else if (!strcmp(cur_identifier, "restrict"     )) { cur_token = TOK_RESTRICT;  }
             else if (!strcmp(cur_identifier, "__asm__"      )) { cur_token = TOK_ASM;       }
diff --git a/parser.c b/parser.c
index c672fd5..bf3fe80 100644
--- a/parser.c
+++ b/parser.c
@@ -914,11 +914,13 @@ static int parse_struct_or_union_attribute(int *alignment) {
         consume(TOK_LPAREN, "(");
         consume(TOK_LPAREN, "(");
 
-        if (cur_token == TOK_PACKED) {
+        int is_identifier = cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE;
+
+        if (is_identifier && (!strcmp(cur_identifier, "packed") || !strcmp(cur_identifier, "__packed__"))) {
             is_packed = 1;
             next();
         }
-        else if (cur_token == TOK_ALIGNED) {
+        else if (is_identifier && (!strcmp(cur_identifier, "aligned") || !strcmp(cur_identifier, "__aligned__"))) {
             // aligned without a number is the largest alignment of any type
             int requested_alignment = 16;
             next();
diff --git a/wcc.h b/wcc.h
index 35ad75e..daf7002 100644
--- a/wcc.h
+++ b/wcc.h
@@ -469,8 +469,6 @@ enum {
     TOK_RPAREN,
     TOK_LPAREN,
     TOK_ATTRIBUTE,
-    TOK_PACKED,
-    TOK_ALIGNED,            // 80
     TOK_HASH,
     TOK_AUTO,
     TOK_REGISTER,
-- 
2.43.0


From 94a9eed43b91701912e99616b7194dca5a8111fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 79/93] fix: offsets of bit-fields of globals with -fPIC

---
 ir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir.c b/ir.c
index 124dc59..8adc223 100644
--- a/ir.c
+++ b/ir.c
@@ -1214,8 +1214,8 @@ static Value *add_load_from_got(Function *function, Tac *tac, Value *src) {
 
     insert_instruction_from_operation(tac, IR_LOAD_FROM_GOT, dst, got_src, 0, 0);
 
+    // src may be shared with other instructions & must not be changed
     dst->offset = src->offset;
-    src->offset = 0;
     got_src->offset = 0;
 
     return dst;
@@ -1265,6 +1265,7 @@ void add_PIC_load_and_saves(Function *function) {
 
         else if (tac->src1 && tac->src1->global_symbol && tac->operation == IR_ADDRESS_OF) {
             tac->operation = IR_ADDRESS_OF_FROM_GOT;
+            tac->src1 = dup_value(tac->src1);
             tac->src1->load_from_got = 1;
             if (tac->src1->offset) {
                 int offset = tac->src1->offset;
-- 
2.43.0


From d060f8b30ad7d1beecf7ba7889ea46ea9e1d6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 80/93] fix: write errors on output files are diagnosed

---
 codegen.c | 2 +-
 cpp.c     | 6 +++++-
 utils.c   | 9 +++++++++
 wcc.h     | 1 +
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index faa6cec..cfe16d1 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1057,7 +1057,7 @@ void output_code(char *input_filename, char *output_filename) {
 
     if (opt_debug_symbols) output_debug_sections(input_filename);
 
-    fclose(f);
+    close_output_file(f, output_filename);
 }
 
 void init_codegen(void) {
diff --git a/cpp.c b/cpp.c
index eac1dc3..55e41fe 100644
--- a/cpp.c
+++ b/cpp.c
@@ -2083,7 +2083,11 @@ void preprocess_to_file(char *input_filename, char *output_filename, List *cli_d
     }
 
     fprintf(cpp_output_file, "%s", data);
-    if (cpp_output_file != stdout) fclose(cpp_output_file);
+    if (cpp_output_file != stdout) close_output_file(cpp_output_file, output_filename);
+    else if (fflush(stdout)) {
+        perror("stdout");
+        exit(1);
+    }
 
     wfree(data);
 }
diff --git a/utils.c b/utils.c
index ec03ba3..da4686b 100644
--- a/utils.c
+++ b/utils.c
@@ -19,6 +19,15 @@ void panic(char *format, ...) {
     exit(1);
 }
 
+// Close an output file, exiting if not everything has been written
+void close_output_file(void *f, char *filename) {
+    int failed = ferror(f);
+    if (fclose(f) || failed) {
+        perror(filename);
+        exit(1);
+    }
+}
+
 // Strip the filename component from a path
 char *base_path(char *path) {
     int end = strlen(path) - 1;
diff --git a/wcc.h b/wcc.h
index daf7002..64536dc 100644
--- a/wcc.h
+++ b/wcc.h
@@ -902,6 +902,7 @@ typedef struct string_buffer {
 
 void panic(char *format, ...);
 
+void close_output_file(void *f, char *filename);
 char *base_path(char *path);
 int wasprintf(char **ret, const char *format, ...);
 StringBuffer *new_string_buffer(int initial_size);
-- 
2.43.0


From 1a12415479f65f76509c3bb9209de4b62034e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 81/93] fix: driver: object per file with -c, temporary files
 removed, arguments quoted

---
 main.c | 140 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 95 insertions(+), 45 deletions(-)

diff --git a/main.c b/main.c
index 6c713fa..e8c5f45 100644
--- a/main.c
+++ b/main.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <unistd.h>
 #include <string.h>
+#include <sys/wait.h>
 
 #include "wcc.h"
 
@@ -37,7 +38,7 @@ static int is_object_file(const char *const filename) {
 
 char *replace_extension(char *input, char *ext) {
     char *p  = strrchr(input,'.');
-    if (!p) {
+    if (!p || strchr(p, '/')) {
         char *result = wmalloc(strlen(input) + strlen(ext) + 2);
         sprintf(result, "%s.%s", input, ext);
         return result;
@@ -53,6 +54,52 @@ char *replace_extension(char *input, char *ext) {
     }
 }
 
+// Temporary files are removed when the compiler exits, in whatever way
+static List *temp_filenames;
+
+static void remove_temp_files(void) {
+    if (!temp_filenames) return;
+
+    for (int i = 0; i < temp_filenames->length; i++) {
+        unlink(temp_filenames->elements[i]);
+        wfree(temp_filenames->elements[i]);
+    }
+    free_list(temp_filenames);
+    temp_filenames = 0;
+}
+
+static char *make_removed_temp_filename(char *template) {
+    char *filename = make_temp_filename(template);
+    append_to_list(temp_filenames, wstrdup(filename));
+    return filename;
+}
+
+// Append a space and an argument in single quotes to a command
+static void append_argument(StringBuffer *command, char *argument) {
+    append_to_string_buffer(command, " '");
+    for (; *argument; argument++) {
+        char c[2];
+        c[0] = *argument;
+        c[1] = 0;
+        append_to_string_buffer(command, *argument == '\'' ? "'\\''" : c);
+    }
+    append_to_string_buffer(command, "'");
+}
+
+// Run a command and return its exit status
+static int run_command(StringBuffer *command, int verbose) {
+    terminate_string_buffer(command);
+    if (verbose) printf("%s\n", command->data);
+    fflush(stdout);
+
+    int status = system(command->data);
+    free_string_buffer(command, 1);
+    if (!status) return 0;
+
+    // It has either failed to run, ended by a signal or failed
+    return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
+}
+
 static void add_include_path(char *path) {
     int len = strlen(path);
     if (!len) simple_error("Invalid include path");
@@ -171,6 +218,9 @@ int main(int argc, char **argv) {
 
     List *extra_linker_args = new_list(0);
 
+    temp_filenames = new_list(0);
+    atexit(remove_temp_files);
+
     List *directive_cli_strings = new_list(8);
 
     argc--;
@@ -241,13 +291,13 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-c", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-c")) {
                 run_linker = 0;
                 single_target = 1;
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-E", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-E")) {
                 run_compiler = 0;
                 run_assembler = 0;
                 run_linker = 0;
@@ -255,7 +305,7 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 1 && !memcmp(argv[0], "-o", 2)) {
+            else if (argc > 1 && !strcmp(argv[0], "-o")) {
                 output_filename = argv[1];
                 argc -= 2;
                 argv += 2;
@@ -467,8 +517,6 @@ int main(int argc, char **argv) {
         exit(1);
     }
 
-    char *command = wmalloc(1024 * 100);
-
     List *compiler_input_filenames = new_list(input_filenames->length);
     char **assembler_input_filenames = wcalloc(input_filenames->length, sizeof(char *));
     char **linker_input_filenames = wcalloc(input_filenames->length, sizeof(char *));
@@ -503,7 +551,7 @@ int main(int argc, char **argv) {
 
         char *compiler_output_filename =
             !run_assembler && !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filename, "s"))
-            : make_temp_filename("/tmp/XXXXXX.s");
+            : make_removed_temp_filename("/tmp/XXXXXX.s");
 
         if (print_filenames) printf("Compiling %s to %s\n", input_filename, compiler_output_filename);
 
@@ -531,18 +579,21 @@ int main(int argc, char **argv) {
             if (!input_filename) continue;
 
             char *assembler_output_filename =
-                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(single_target ? input_filenames->elements[0] : input_filename, "o"))
-                : make_temp_filename("/tmp/XXXXXX.o");
+                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filenames->elements[i], "o"))
+                : make_removed_temp_filename("/tmp/XXXXXX.o");
 
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
 
-            sprintf(command, "%s -64 %s -o %s", get_as_binary(), input_filename, assembler_output_filename);
-            if (verbose) {
-                sprintf(command, "%s %s", command, "-v");
-                printf("%s\n", command);
-            }
-            int result = system(command);
-            if (result != 0) exit(result >> 8);
+            StringBuffer *command = new_string_buffer(128);
+            append_to_string_buffer(command, get_as_binary());
+            append_to_string_buffer(command, " -64");
+            append_argument(command, input_filename);
+            append_to_string_buffer(command, " -o");
+            append_argument(command, assembler_output_filename);
+            if (verbose) append_to_string_buffer(command, " -v");
+
+            int result = run_command(command, verbose);
+            if (result) exit(result);
 
             if (run_linker)
                 linker_input_filenames[i] = assembler_output_filename;
@@ -559,45 +610,43 @@ int main(int argc, char **argv) {
 
     // Linker phase
     if (run_linker) {
-        char *filenames = wmalloc(1024 * 100);
-        char *s = filenames;
+        StringBuffer *command = new_string_buffer(128);
+        append_to_string_buffer(command, "gcc");
+
+        if (print_filenames) printf("Running linker on");
         for (int i = 0; i < input_filenames->length; i++) {
             char *filename = linker_input_filenames[i];
-            if (filename) s += sprintf(s, " %s", (char *) filename);
+            if (!filename) continue;
+            if (print_filenames) printf(" %s", filename);
+            append_argument(command, filename);
         }
-        if (print_filenames) printf("Running linker on%s\n", filenames);
+        if (print_filenames) printf("\n");
 
-        s = command;
-        s += sprintf(s, "gcc%s", filenames);
-        wfree(filenames);
-
-        for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next)
-            s += sprintf(s, " -L %s", cli_library_path->path);
-
-        for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next)
-            s += sprintf(s, " -l %s", cli_library->library);
+        for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next) {
+            append_to_string_buffer(command, " -L");
+            append_argument(command, cli_library_path->path);
+        }
 
-        char *linker_output_filename = output_filename ? output_filename : "a.out";
-        s += sprintf(s, " -o %s", linker_output_filename);
+        for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next) {
+            append_to_string_buffer(command, " -l");
+            append_argument(command, cli_library->library);
+        }
 
-        if (shared) s += sprintf(s, " -shared");
+        append_to_string_buffer(command, " -o");
+        append_argument(command, output_filename ? output_filename : "a.out");
 
-        for (int i = 0; i < extra_linker_args->length; i++)
-            s += sprintf(s, " -Wl,%s", (char *) extra_linker_args->elements[i]);
+        if (shared) append_to_string_buffer(command, " -shared");
 
-        if (verbose) {
-            s += sprintf(s, " -v");
-            *s = 0;
-            printf("%s\n", command);
+        for (int i = 0; i < extra_linker_args->length; i++) {
+            char *argument;
+            wasprintf(&argument, "-Wl,%s", (char *) extra_linker_args->elements[i]);
+            append_argument(command, argument);
+            wfree(argument);
         }
 
-        *s = 0;
+        if (verbose) append_to_string_buffer(command, " -v");
 
-        int result = system(command);
-        if (result != 0) {
-            exit_code = result >> 8;
-            goto exit_main;
-        }
+        exit_code = run_command(command, verbose);
     }
 
 
@@ -618,7 +667,6 @@ exit_main:
 
     free_list(input_filenames);
 
-    wfree(command);
     free_list(extra_linker_args);
     free_list(directive_cli_strings);
 
@@ -626,6 +674,8 @@ exit_main:
     free_cli_library_paths();
     free_cli_libraries();
 
+    remove_temp_files();
+
     process_memory_allocation_stats();
 
     exit(exit_code);
-- 
2.43.0


From b47d8fe2183b835f7e9a148f28eb1835b4a0882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 82/93] fix: maps: put of a key behind a tombstone

---
 longmap.c | 14 +++++++++++---
 strmap.c  | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/longmap.c b/longmap.c
index 14d4f86..580f1ef 100644
--- a/longmap.c
+++ b/longmap.c
@@ -66,18 +66,26 @@ void longmap_put(LongMap *map, long key, void *value) {
     long mask = map->size - 1;
     long pos = map->hashfunc(key) & mask;
 
+    long tombstone = -1; // The first tombstone in the chain
     while (1) {
         char status = map->status[pos];
-        if (status != STATUS_USED) {
+        if (status == STATUS_EMPTY) {
+            if (tombstone == -1)
+                map->used_count++;
+            else
+                pos = tombstone;
             map->keys[pos] = key;
             map->values[pos] = value;
             map->status[pos] = STATUS_USED;
             map->element_count++;
-            if (status == STATUS_EMPTY) map->used_count++;
             return;
         }
 
-        if (map->keys[pos] == key) {
+        if (status == STATUS_TOMBSTONE) {
+            // The key may still be further down the chain
+            if (tombstone == -1) tombstone = pos;
+        }
+        else if (map->keys[pos] == key) {
             map->values[pos] = value;
             return;
         }
diff --git a/strmap.c b/strmap.c
index 60239e6..77cf831 100644
--- a/strmap.c
+++ b/strmap.c
@@ -64,17 +64,25 @@ void strmap_put(StrMap *map, char *key, void *value) {
     unsigned int pos = hash(key) & mask;
 
     char *k;
+    int tombstone = -1; // The first tombstone in the chain
     while (1) {
         k = map->keys[pos];
-        if (!k || k == (char *) TOMBSTONE) {
+        if (!k) {
+            if (tombstone == -1)
+                map->used_count++;
+            else
+                pos = tombstone;
             map->keys[pos] = key;
             map->values[pos] = value;
             map->element_count++;
-            if (!k) map->used_count++;
             return;
         }
 
-        if (!strcmp(k, key)) {
+        if (k == (char *) TOMBSTONE) {
+            // The key may still be further down the chain
+            if (tombstone == -1) tombstone = pos;
+        }
+        else if (!strcmp(k, key)) {
             map->values[pos] = value;
             return;
         }
-- 
2.43.0


From e848bc78d575d3662880f8fb7c9822c008af9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 83/93] fix: failures to determine the size of an input file
 are errors

---
 cpp.c   | 7 ++++---
 lexer.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cpp.c b/cpp.c
index 55e41fe..c7f6d37 100644
--- a/cpp.c
+++ b/cpp.c
@@ -107,9 +107,10 @@ void get_cpp_filename_and_line() {
 }
 
 static void init_cpp_from_fh(FILE *f, char *path) {
-    fseek(f, 0, SEEK_END);
-    state.input_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if (fseek(f, 0, SEEK_END) || (state.input_size = ftell(f)) < 0 || fseek(f, 0, SEEK_SET)) {
+        printf("Unable to read input file\n");
+        exit(1);
+    }
 
     state.input = wmalloc(state.input_size + 1);
     int read = fread(state.input, 1, state.input_size, f);
diff --git a/lexer.c b/lexer.c
index 79d8814..e38a39a 100644
--- a/lexer.c
+++ b/lexer.c
@@ -44,9 +44,10 @@ void init_lexer_from_filename(char *filename) {
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    input_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if (fseek(f, 0, SEEK_END) || (input_size = ftell(f)) < 0 || fseek(f, 0, SEEK_SET)) {
+        printf("Unable to read input file\n");
+        exit(1);
+    }
 
     input = wmalloc(input_size + 1);
     input_is_freeable = 1;
-- 
2.43.0


From 1e526310b38b65556834aeff8292fdb3db4c94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 84/93] fix: Declare the destinations in the long double to
 integer conversion, so that they're stored when spilled

---
 instrrules.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 1d4f4b9..5a3276c 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -407,8 +407,8 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
     }
 
     add_op(r, X_MOVC, 0,   0,   SV1, "fnstcw %v2");         // Backup control word into allocated stack entry
-    add_op(r, X_MOVZ, 0,   SV2, SV1, "movzwl %v2w, %v1l");  // Move control word into register
-    add_op(r, X_BOR,  0,   SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
+    add_op(r, X_MOVZ, SV2, SV1, 0,   "movzwl %v1w, %vdl");  // Move control word into register
+    add_op(r, X_BOR,  SV2, SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
     add_op(r, X_MOVC, SV3, SV2, SV3, "movw %v1w, %v2w");    // Move control word into allocated stack
     add_op(r, X_MOVC, 0,   0,   SV3, "fldcw %v2w");         // Load control word from allocated stack
     add_op(r, X_MOVC, 0,   0,   SV4, conv_template);        // Do conversion and store it on the stack
@@ -420,9 +420,9 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
 
     if (ru4) {
         // xor the high bit if the value was > 2^53
-        add_op(r, X_MOVC, 0,   0, SV5, "movzbq %v2b, %v2q"); // Zero all bits except the first
-        add_op(r, X_SHR,  0,   0, SV5, "shlq $63, %v2q");    // Move the first bit to the last bit
-        add_op(r, X_XOR,  DST, 0, SV5, "xorq  %v2q, %vdq");  // set the sign bit if the original value was >= 2^63 - 1
+        add_op(r, X_MOVC, SV5, SV5, 0,   "movzbq %v1b, %v1q"); // Zero all bits except the first
+        add_op(r, X_SHR,  SV5, SV5, 0,   "shlq $63, %v1q");    // Move the first bit to the last bit
+        add_op(r, X_XOR,  DST, DST, SV5, "xorq  %v2q, %v1q");  // set the sign bit if the original value was >= 2^63 - 1
     }
 }
 
-- 
2.43.0


From ac11934d3954ff18c7e3601d922fa0c3652dc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 85/93] fix: Don't write a needless terminator beyond the end
 of the successor versions

---
 ssa.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ssa.c b/ssa.c
index ed183fa..fc284b1 100644
--- a/ssa.c
+++ b/ssa.c
@@ -665,7 +665,6 @@ void make_liveout(Function *function) {
                 e = e->next_succ;
                 successor++;
             }
-            block_successor_liveout_versions[successor] = 0;
 
             // Ensure unions has been emptied before the next iteration
             if (!longset_eq(function->liveout[i], unions)) {
-- 
2.43.0


From 49d3a995762c3e7b02eace3bdc9ccf5e6dc65566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 86/93] fix: &*p for a pointer in memory is its value, not the
 address of the pointer

---
 instrsel.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index 8afbd0f..8299e60 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -509,7 +509,11 @@ static void recursive_simplify_igraph(IGraph *src, IGraph *dst, int src_node_id,
     // recurse, with dst moved further down the tree
     int operation;
     if (tac) operation = tac->operation; else operation = 0;
-    if (operation == IR_MOVE && src_node_id != 0 && type_eq(tac->dst->type, tac->src1->type)) {
+    // The address of a register is the pointer in it, whereas the address of what
+    // has been moved into the register is another one, so that move has to stay.
+    Tac *parent_tac = dst_parent_node_id == -1 ? 0 : dst->nodes[dst_parent_node_id].tac;
+    int parent_is_address_of = parent_tac && parent_tac->operation == IR_ADDRESS_OF;
+    if (operation == IR_MOVE && src_node_id != 0 && !parent_is_address_of && type_eq(tac->dst->type, tac->src1->type)) {
         recursive_simplify_igraph(src, dst, e->to->id, dst_parent_node_id, dst_child_node_id);
         return;
     }
-- 
2.43.0


From 7b87bf194e506c8a8130838eb19643086a051588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 87/93] fix: Load the address of function designators in
 ternaries from the GOT as other function addresses

---
 ir.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir.c b/ir.c
index 8adc223..ffc48f2 100644
--- a/ir.c
+++ b/ir.c
@@ -1283,12 +1283,15 @@ void add_PIC_load_and_saves(Function *function) {
 // function has been defined.
 void convert_functions_address_of(Function *function) {
     for (Tac *tac = function->ir; tac; tac = tac->next) {
-        if (tac->operation == IR_ADDRESS_OF && tac->src1->global_symbol && tac->src1->type->type == TYPE_FUNCTION) {
+        // A function designator can also be converted to a pointer by moving it, e.g. in a ternary
+        int is_address_of = tac->operation == IR_ADDRESS_OF || tac->operation == IR_MOVE;
+        if (is_address_of && tac->src1->global_symbol && tac->src1->type->type == TYPE_FUNCTION) {
 
             int is_defined = tac->src1->function_symbol && tac->src1->function_symbol->function && tac->src1->function_symbol->function->is_defined;
 
             if (!is_defined) {
                 tac->operation = IR_ADDRESS_OF_FROM_GOT;
+                tac->src1 = dup_value(tac->src1);
                 tac->src1->load_from_got = 1;
             }
         }
-- 
2.43.0


From 2a10156d74ece2c8807f8e0d9d39e10408988435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 88/93] fix: Allocate room for the delimiters of string
 literals of maximum length

---
 cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index c7f6d37..4d1fe71 100644
--- a/cpp.c
+++ b/cpp.c
@@ -672,7 +672,7 @@ static void lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
     int data_offset = 0;
 
-    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 2);
+    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 4); // Including an L, the delimiters and a terminating zero
 
     if (i[state.ip] == 'L') {
         advance_ip();
-- 
2.43.0


From ec97fab7f20d0e9050dd4a0b16783b6a5ed48116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 89/93] fix: Don't free the string of a stringized operand of
 ## twice

---
 cpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 4d1fe71..33478f9 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1161,7 +1161,8 @@ static CppToken *stringize(CppToken *ts) {
     free_string_buffer(escaped, 0);
     free_string_buffer(rendered, 1);
 
-    return result;
+    // The string is freed with the new token. A ## may replace it in the duplicate.
+    return dup_cpp_token(result);
 }
 
 // Make a token that stands for an empty parameter on the left side of a ##. They don't survive substitution.
-- 
2.43.0


From 14a8d0b19c93468041b4f00110187a27329062ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 90/93] fix: Don't write before the start of an empty #line
 filename

---
 cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 33478f9..3ba6323 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1642,7 +1642,7 @@ static void set_line(CppToken *token, CppToken *tokens) {
 
     if (token && token->kind == CPP_TOK_STRING_LITERAL) {
         char *filename = wstrdup(token->str + 1);
-        filename[strlen(filename) - 1] = 0;
+        if (*filename) filename[strlen(filename) - 1] = 0; // A zero byte in the input ends the string early
         append_to_list(allocated_strings, filename);
         state.override_filename = filename;
     }
-- 
2.43.0


From 6e8fd826d21e1fef7f574ba8f820a2e8eff6e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 91/93] fix: Don't expand macros in # <number> lines, as it
 mutates the tokens that are used afterwards

---
 cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 3ba6323..d300649 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1868,7 +1868,7 @@ static void parse_directive(void) {
 
             if (state.conditional_include_stack->skipping) break;
 
-            append_tokens_to_output(expand(tokens));
+            append_tokens_to_output(dup_cll(tokens));
             set_line(cll_next(tokens, tokens->next), tokens);
 
             break;
-- 
2.43.0


From 35e0a8fbb9b2f145ba3e917761086963596685d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 92/93] fix: Calls of functions that return an incomplete type
 are errors

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index bf3fe80..76d0203 100644
--- a/parser.c
+++ b/parser.c
@@ -2494,6 +2494,9 @@ static void parse_function_call(void) {
 
     next();
 
+    if (function_type->target->type != TYPE_VOID && is_incomplete_type(function_type->target))
+        error("Call of a function that returns an incomplete type");
+
     int function_call = function_call_count++;
     Value *src1 = make_function_call_value(function_call);
     add_parser_instruction(IR_START_CALL, 0, src1, 0);
-- 
2.43.0


From feafe9360a4a8610879e7d9490c036b31a3c3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 93/93] fix: Size the table of function call arguments by the
 largest call

---
 ir.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ir.c b/ir.c
index ffc48f2..d299471 100644
--- a/ir.c
+++ b/ir.c
@@ -396,8 +396,6 @@ int make_function_call_count(Function *function) {
 // the seventh arg and later to be pushed in reverse order. Easiest is to flip
 // all args backwards, so they are pushed left to right.
 void reverse_function_argument_order(Function *function) {
-    const int MAX_ARGS = 256;
-
     typedef struct tac_interval {
         Tac *start;
         Tac *end;
@@ -406,11 +404,21 @@ void reverse_function_argument_order(Function *function) {
     // Need to count this IR's function_call_count
     int function_call_count = make_function_call_count(function);
 
+    int *arg_counts = wcalloc(function_call_count, sizeof(int));
+
+    // Determine the size of the second index of function_args, with one more for the start of what follows the last one
+    int max_args = 1;
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->operation != IR_ARG) continue;
+        int arg_count = ++arg_counts[tac->src1->int_value];
+        if (arg_count + 1 > max_args) max_args = arg_count + 1;
+    }
+    for (int i = 0; i < function_call_count; i++) arg_counts[i] = 0;
+
     // First index, function_id, second index arg_id
     TacInterval *function_args;
-    function_args = wmalloc(sizeof(TacInterval) * function_call_count * MAX_ARGS);
+    function_args = wmalloc(sizeof(TacInterval) * function_call_count * max_args);
 
-    int *arg_counts = wcalloc(function_call_count, sizeof(int));
     Tac **calls = wcalloc(function_call_count, sizeof(Tac *));
     Tac **call_starts = wcalloc(function_call_count, sizeof(Tac *));
 
@@ -421,7 +429,7 @@ void reverse_function_argument_order(Function *function) {
     while (tac) {
         if (tac->operation == IR_START_CALL) {
             int func = tac->src1->int_value;
-            TacInterval *args = &(function_args[func * MAX_ARGS]);
+            TacInterval *args = &(function_args[func * max_args]);
             call_starts[func] = tac;
             tac = tac->next;
             args[arg_counts[func]].start = tac;
@@ -433,7 +441,7 @@ void reverse_function_argument_order(Function *function) {
         }
         else if (tac->operation == IR_ARG) {
             int func = tac->src1->int_value;
-            TacInterval *args = &(function_args[func * MAX_ARGS]);
+            TacInterval *args = &(function_args[func * max_args]);
             args[arg_counts[func]].end = tac;
             tac = tac->next;
 
@@ -451,7 +459,7 @@ void reverse_function_argument_order(Function *function) {
 
     // Reverse the args for each function call
     for (int i = 0; i < function_call_count; i++) {
-        TacInterval *args = &(function_args[i * MAX_ARGS]);
+        TacInterval *args = &(function_args[i * max_args]);
         int arg_count = arg_counts[i];
         Tac *call = calls[i];
         Tac *call_start = call_starts[i];
-- 
2.43.0

