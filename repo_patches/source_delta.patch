From 0955d7457ec68cc32c02566dbc5030b60cc5046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 01/66] fix: use unsigned division for unsigned operands

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From d055f3cabf6f3fbb2611431003c95a2627d3a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 02/66] fix: give comparisons of 8-byte operands a result of
 size int

---
 src/ir/ir.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..1636d41 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -548,8 +548,23 @@ struct node *ir_imod(struct node *lhs, struct node *rhs) {
 	return ir_project(ins, 0, lhs->size);
 }
 
+// The result of a comparison is always an int, no matter the size of the operands.
+static int binary_op_result_size(int type, struct node *lhs) {
+	switch (type) {
+	case IR_LESS: case IR_ILESS: case IR_FLT_LESS:
+	case IR_GREATER: case IR_IGREATER: case IR_FLT_GREATER:
+	case IR_LESS_EQ: case IR_ILESS_EQ: case IR_FLT_LESS_EQ:
+	case IR_GREATER_EQ: case IR_IGREATER_EQ: case IR_FLT_GREATER_EQ:
+	case IR_EQUAL: case IR_FLT_EQUAL:
+	case IR_NOT_EQUAL: case IR_FLT_NOT_EQUAL:
+		return calculate_size(type_simple(ST_INT));
+	default:
+		return lhs->size;
+	}
+}
+
 struct node *ir_equal(struct node *lhs, struct node *rhs) {
-	return ir_new2(IR_EQUAL, lhs, rhs, lhs->size);
+	return ir_new2(IR_EQUAL, lhs, rhs, binary_op_result_size(IR_EQUAL, lhs));
 }
 
 struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
@@ -561,7 +576,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
 		return ir_imod(lhs, rhs);
-	return ir_new2(type, lhs, rhs, lhs->size);
+	return ir_new2(type, lhs, rhs, binary_op_result_size(type, lhs));
 }
 
 void ir_call(struct node *callee, struct node *reg_state, struct node *call_stack,
-- 
2.43.0


From 180ddfc51f155b6a69cc019bf95f9bffff6f0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 03/66] fix: make floating-point comparisons false (or !=) for
 NaN operands

---
 src/assembler/instructions.h   |   2 +
 src/codegen/binary_operators.h | 107 +++++++++++++++++++++------------
 src/codegen/codegen.c          |   4 +-
 3 files changed, 71 insertions(+), 42 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..08ab706 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -205,6 +205,8 @@ struct encoding encodings[] = {
 	{"setl", 0x0f, .op2 = 0x9c, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..75b0a7b 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -4,6 +4,9 @@
 #include <parser/parser.h>
 #include <assembler/assembler.h>
 
+// Maximum number of instructions needed for a binary operator.
+#define CODEGEN_ASM_MAX 8
+
 #define BINARY_INS_32(MNEMONIC) {						\
 		{MNEMONIC, {R4_(REG_RCX), R4_(REG_RAX)}}	\
 	}
@@ -21,12 +24,25 @@
 		{"movd", {XMM_(0), R4_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_32(MNEMONIC) {				\
+// "ucomiss" sets the carry, zero and parity flags if any of the operands is NaN.
+// LHS and RHS are the operands such that "seta" and "setnb" give the right answer.
+#define BINARY_COMP_FLT_32(MNEMONIC, LHS, RHS) {	\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+		{"ucomiss", {XMM_(RHS), XMM_(LHS)}},	\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+// Equality depends on both the zero and the parity flag.
+#define BINARY_EQ_FLT_32(MNEMONIC, PARITY, COMBINE) {	\
 		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
 		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
-		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
 		{"ucomiss", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS_64(MNEMONIC) {						\
@@ -46,78 +62,89 @@
 		{"movq", {XMM_(0), R8_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_64(MNEMONIC) {				\
+#define BINARY_COMP_FLT_64(MNEMONIC, LHS, RHS) {	\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(RHS), XMM_(LHS)}},	\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQ_FLT_64(MNEMONIC, PARITY, COMBINE) {	\
 		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
 		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
 		{"ucomisd", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
-#define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
-
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+#define BINARY_COMP_FLT(M, LHS, RHS) BINARY_COMP_FLT_32(M, LHS, RHS), BINARY_COMP_FLT_64(M, LHS, RHS)
+#define BINARY_EQ_FLT(M, P, C) BINARY_EQ_FLT_32(M, P, C), BINARY_EQ_FLT_64(M, P, C)
+
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][CODEGEN_ASM_MAX] = {
+	[IR_ADD] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP_FLT("seta", 1, 0) },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP_FLT("seta", 0, 1) },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP_FLT("setnb", 1, 0) },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_COMP_FLT("setnb", 0, 1) },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_EQ_FLT("sete", "setnp", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][CODEGEN_ASM_MAX]) { BINARY_EQ_FLT("setne", "setp", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..1d05a49 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -202,7 +202,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][CODEGEN_ASM_MAX] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -219,7 +219,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < CODEGEN_ASM_MAX && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From 3b01f3861f29a5a48dbc5ffb941c6293e48ef2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 04/66] fix: compare conditions and conversions to _Bool
 against zero in their own type

---
 src/arch/x64.c                | 10 ++++++++++
 src/parser/expression.c       |  4 ++--
 src/parser/expression_to_ir.c | 14 ++++++++++++--
 src/parser/expression_to_ir.h |  1 +
 src/parser/function_parser.c  |  8 ++++----
 5 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..b10c57d 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,6 +507,16 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
+	if (target == ST_BOOL) {
+		if (from_type == ST_DOUBLE)
+			from.uint_d = from.double_d != 0;
+		else if (from_type == ST_FLOAT)
+			from.uint_d = from.float_d != 0;
+		else
+			from.uint_d = from.uint_d != 0;
+		return from;
+	}
+
 	if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..847bfd5 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1101,9 +1101,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..38f0727 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -133,6 +133,12 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
+		if (type_is_floating(operand_type)) {
+			// Negative zero compares equal to zero, so looking at the bits is not enough.
+			struct constant zero = constant_simple_unsigned(ST_UINT, 0);
+			zero = constant_cast(zero, operand_type);
+			operand_var = ir_binary_op(IR_FLT_NOT_EQUAL, operand_var, ir_constant(zero));
+		}
 		res = ir_bool_cast(operand_var);
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
@@ -534,8 +540,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
-	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = expression_to_condition(expr->args[0]);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -750,6 +755,11 @@ struct node *expression_to_int(struct expr *expr) {
 	return res;
 }
 
+// Is non-zero if and only if the expression compares unequal to 0.
+struct node *expression_to_condition(struct expr *expr) {
+	return expression_to_ir(expression_cast(expr, type_simple(ST_BOOL)));
+}
+
 void expression_to_void(struct expr *expr) {
 	expression_evaluate(expr);
 }
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..33fecc7 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -10,6 +10,7 @@ struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
 struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..d96d545 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -195,7 +195,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -257,7 +257,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -301,7 +301,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -368,7 +368,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From 4c4d5ab3966bfc0bb3fcd8bc409069ed5ae14e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 05/66] fix: evaluate switch and case in the promoted type of
 the controlling expression

---
 src/parser/function_parser.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index d96d545..0905a36 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type; // Promoted type of the controlling expression.
 };
 
 static struct function_scope {
@@ -81,14 +82,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -155,7 +157,12 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	// Unary plus performs the integer promotions.
+	condition = EXPR_UNARY_OP(UOP_PLUS, condition);
+	if (!type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Controlling expression of switch is not an integer");
+
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -171,6 +178,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-- 
2.43.0


From 1335152c04e3610747080007565aa6d9f9ac8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 06/66] fix: treat default as a complete labeled statement

---
 src/parser/function_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 0905a36..a5e7001 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -121,6 +121,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
-- 
2.43.0


From cff96151aefc6a4c7e9a9f325ec53dc44b7f8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 07/66] fix: keep track of case, default and continue across
 nested loops and switches

---
 src/parser/function_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index a5e7001..3659350 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -185,6 +185,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	// Parse body
 	parse_statement(&new_jump_blocks);
 
+	// A continue inside of the switch belongs to the enclosing loop.
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	if (new_jump_blocks.block_default)
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_default);
 	else
@@ -240,6 +243,12 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 	}
 }
 
+// A case or default inside of a loop belongs to the enclosing switch.
+static void leave_loop(struct jump_blocks *jump_blocks, struct jump_blocks *loop_jump_blocks) {
+	jump_blocks->block_entry = loop_jump_blocks->block_entry;
+	jump_blocks->block_default = loop_jump_blocks->block_default;
+}
+
 static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_KDO))
 		return 0;
@@ -255,6 +264,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
@@ -324,6 +334,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
 
@@ -404,6 +415,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
-- 
2.43.0


From f42356c09c3ab111c437210527c33589656da900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 08/66] fix: keep the body of non-void functions that do not
 end in a return

---
 src/parser/function_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 3659350..2ac53e7 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -555,6 +555,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
+	} else {
+		// Reaching the end is allowed as long as the value is not used.
+		ir_return(NULL);
 	}
 	
 	symbols_pop_scope();
-- 
2.43.0


From d2a3434c41b95ed10339c6a9e5bebacc085a8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 09/66] fix: keep the side effects of loops that are never left
 normally

---
 src/ir/ir.c                  |  6 ++++++
 src/ir/ir.h                  |  1 +
 src/optimize/remove_dead.c   | 18 ++++++++++++++++++
 src/parser/function_parser.c |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 1636d41..36b8c26 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -267,6 +267,12 @@ void ir_block_start(struct node *block) {
 	}
 }
 
+// Make sure that everything up until the start of the current block is done,
+// even if the block turns out to be part of a loop that is never exited.
+void ir_keep_state(void) {
+	get_state();
+}
+
 void ir_if_selection(struct node *condition, struct node **block_true, struct node **block_false) {
 	struct node *block = get_current_block();
 	struct node *if_node = ir_new2(IR_IF, block, condition, 0);
diff --git a/src/ir/ir.h b/src/ir/ir.h
index d975e53..b5a5f2a 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -228,6 +228,7 @@ struct node *new_function(const char *name, int is_global);
 extern struct node *first_function;
 
 void ir_block_start(struct node *block);
+void ir_keep_state(void);
 
 void ir_if_selection(struct node *condition, struct node **block_true, struct node **block_false);
 void ir_goto(struct node *jump);
diff --git a/src/optimize/remove_dead.c b/src/optimize/remove_dead.c
index e6085c0..1ffc77f 100644
--- a/src/optimize/remove_dead.c
+++ b/src/optimize/remove_dead.c
@@ -4,6 +4,8 @@
 
 #include <common.h>
 
+#include <stdlib.h>
+
 void recurse_mark_reachable(struct node *control) {
 	if (control->visited == -1)
 		return;
@@ -55,6 +57,22 @@ void optimize_remove_dead(void) {
 			recurse_mark_reachable(node->projects[0]);
 	}
 
+	// The state has to be kept even if no return is reachable from it.
+	struct node **states = NULL;
+	size_t states_size = 0, states_cap = 0;
+
+	for (unsigned i = 0; i < size; i++) {
+		struct node *node = nodes[i];
+
+		if (node->type == IR_PHI && node->size == 0 &&
+			node->arguments[0] && node->arguments[0]->visited == -1)
+			ADD_ELEMENT(states_size, states_cap, states) = node;
+	}
+
+	for (unsigned i = 0; i < states_size; i++)
+		recurse_mark_useful(states[i]);
+	free(states);
+
 	for (unsigned i = 0; i < size; i++) {
 		struct node *node = nodes[i];
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 2ac53e7..a9a5e8a 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -74,6 +74,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 
 		ir_goto(goto_block);
 		ir_block_start(goto_block);
+		ir_keep_state();
 
 		parse_statement(jump_blocks);
 		return 1;
@@ -259,6 +260,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 
 	ir_goto(block_body);
 	ir_block_start(block_body);
+	ir_keep_state();
 
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
@@ -313,6 +315,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
+	ir_keep_state();
 
 	struct expr *control_expression = parse_expression();
 	if (!control_expression)
@@ -385,6 +388,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
+	ir_keep_state();
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-- 
2.43.0


From cd35f91df5705c9d5779456cb62d11f31625955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 10/66] fix: assign all phi nodes of a block in parallel

---
 src/codegen/codegen.c | 57 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 1d05a49..de93f15 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -503,28 +503,46 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	}
 }
 
+// Get the value a phi node takes when coming from current_block.
+static struct node *phi_source(struct node *ins, struct node *current_block, struct node *next_block) {
+	if (current_block == next_block->arguments[0]) {
+		return ins->arguments[1];
+	} else if (current_block == next_block->arguments[1]) {
+		return ins->arguments[2];
+	} else {
+		ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
+			next_block,
+			current_block,
+			next_block->arguments[0], next_block->arguments[1]);
+	}
+}
+
 static void codegen_phi_node(struct node *current_block, struct node *next_block) {
 	if (next_block->type != IR_REGION)
 		return;
 
+	// All phi nodes are assigned at once, so if any of them depends on another
+	// all the values have to be read before the first one is written.
+	int is_parallel = 0;
 	for (unsigned i = 0; i < next_block->use_size; i++) {
 		struct node *ins = next_block->uses[i];
 
 		if (ins->type != IR_PHI || ins->size == 0)
 			continue;
 
-		struct node *source_var;
+		struct node *source_var = phi_source(ins, current_block, next_block);
+		if (source_var && source_var != ins &&
+			source_var->type == IR_PHI && source_var->arguments[0] == next_block)
+			is_parallel = 1;
+	}
 
-		if (current_block == next_block->arguments[0]) {
-			source_var = ins->arguments[1];
-		} else if (current_block == next_block->arguments[1]) {
-			source_var = ins->arguments[2];
-		} else {
-			ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
-				next_block,
-				current_block,
-				next_block->arguments[0], next_block->arguments[1]);
-		}
+	for (unsigned i = 0; i < next_block->use_size; i++) {
+		struct node *ins = next_block->uses[i];
+
+		if (ins->type != IR_PHI || ins->size == 0)
+			continue;
+
+		struct node *source_var = phi_source(ins, current_block, next_block);
 
 		if (!source_var)
 			continue;
@@ -535,6 +553,23 @@ static void codegen_phi_node(struct node *current_block, struct node *next_block
 					ins->arguments[2] ? ins->arguments[2]->index : -1
 			);
 		scalar_to_reg(source_var, REG_RAX);
+		if (is_parallel)
+			asm_ins1("pushq", R8(REG_RAX));
+		else
+			reg_to_scalar(REG_RAX, ins);
+	}
+
+	if (!is_parallel)
+		return;
+
+	for (unsigned i = next_block->use_size; i-- > 0;) {
+		struct node *ins = next_block->uses[i];
+
+		if (ins->type != IR_PHI || ins->size == 0 ||
+			!phi_source(ins, current_block, next_block))
+			continue;
+
+		asm_ins1("popq", R8(REG_RAX));
 		reg_to_scalar(REG_RAX, ins);
 	}
 }
-- 
2.43.0


From a7fc540f602892169fa6797dd23e7222356fd77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 11/66] fix: do not move loads past stores in enclosing blocks

---
 src/ir/global_code_motion.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index 5244ca2..ef1ae9c 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -123,4 +123,22 @@ void ir_schedule_instructions_to_blocks(void) {
 
 		schedule_late(node);
 	}
+
+	// A load has to be done before the memory is changed, which can happen
+	// anywhere between the block of its state and the blocks of its uses.
+	for (unsigned i = 0; i < nodes_size; i++) {
+		struct node *node = nodes[i];
+
+		if (node->type != IR_LOAD || !node->block || !node->block->block_info.idom)
+			continue;
+
+		struct node *address = node->arguments[0], *state = node->arguments[1];
+
+		if (!state->block || !state->block->block_info.idom)
+			continue;
+
+		node->block = state->block;
+		if (address->block && address->block->block_info.idom)
+			address->block = intersect(address->block, node->block);
+	}
 }
-- 
2.43.0


From 0d1f27f37332a2645a1c9ed63d733995084b434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:49 +0000
Subject: [PATCH 12/66] fix: convert between floating-point and 64-bit unsigned
 integers over the whole range

---
 src/codegen/codegen.c         | 76 ++++++++++++++++++++++++++++++-----
 src/debug.c                   |  1 +
 src/ir/ir.c                   |  4 +-
 src/ir/ir.h                   |  3 +-
 src/parser/expression_to_ir.c |  2 +-
 5 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index de93f15..5c04ab3 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -198,6 +198,46 @@ static void codegen_get_reg_uses(struct node *reg_source) {
 	}
 }
 
+static void codegen_cvtsi2s(int float_size) {
+	if (float_size == 4) {
+		asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
+	} else if (float_size == 8) {
+		asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+	} else {
+		NOTIMP();
+	}
+}
+
+// Convert the unsigned integer in rax to a float in xmm0.
+static void codegen_int_to_xmm0(int float_size, int is_64bit) {
+	if (!is_64bit) {
+		codegen_cvtsi2s(float_size);
+		return;
+	}
+
+	// There is no instruction for converting unsigned 64-bit integers.
+	// If the high bit is set convert half of it (rounded to odd) and double the result.
+	label_id small_label = register_label(), end_label = register_label();
+	asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+	asm_ins2("shrq", IMM(63), R8(REG_RCX));
+	asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+	asm_ins1("je", IMML_ABS(small_label, 0));
+	asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+	asm_ins2("andq", IMM(1), R8(REG_RCX));
+	asm_ins2("shrq", IMM(1), R8(REG_RAX));
+	asm_ins2("orq", R8(REG_RCX), R8(REG_RAX));
+	codegen_cvtsi2s(float_size);
+	if (float_size == 4) {
+		asm_ins2("addss", XMM(0), XMM(0));
+	} else {
+		asm_ins2("addsd", XMM(0), XMM(0));
+	}
+	asm_ins1("jmp", IMML_ABS(end_label, 0));
+	asm_label(0, small_label);
+	codegen_cvtsi2s(float_size);
+	asm_label(0, end_label);
+}
+
 static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
@@ -390,28 +430,42 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
 		}
 
-		if (size_result == 4) {
-			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
+		codegen_int_to_xmm0(size_result, size_rhs == 8);
+
+		if (size_result == 4)
 			asm_ins2("movd", XMM(0), R4(REG_RAX));
-		} else if (size_result == 8) {
-			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+		else
 			asm_ins2("movq", XMM(0), R8(REG_RAX));
-		} else {
-			NOTIMP();
-		}
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
-	case IR_FLOAT_INT_CAST: {
+	case IR_FLOAT_INT_CAST:
+	case IR_FLOAT_UINT_CAST: {
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		int size_rhs = ins->arguments[0]->size;
-		// This is not the exact same as gcc and clang in the
-		// case of unsigned long. But within the C standard?
 		if (size_rhs == 4) {
 			asm_ins2("movd", R4(REG_RAX), XMM(0));
-			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
+			asm_ins2("cvtss2sd", XMM(0), XMM(0));
 		} else if (size_rhs == 8) {
 			asm_ins2("movd", R8(REG_RAX), XMM(0));
+		}
+
+		if (ins->type == IR_FLOAT_UINT_CAST && ins->size == 8) {
+			// Values that are too large for a signed integer have 2^63
+			// subtracted before, and added back after the conversion.
+			label_id large_label = register_label(), end_label = register_label();
+			asm_ins2("movabsq", IMM(0x43e0000000000000), R8(REG_RCX)); // 2^63
+			asm_ins2("movq", R8(REG_RCX), XMM(1));
+			asm_ins2("ucomisd", XMM(1), XMM(0));
+			asm_ins1("jnb", IMML_ABS(large_label, 0));
+			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
+			asm_ins1("jmp", IMML_ABS(end_label, 0));
+			asm_label(0, large_label);
+			asm_ins2("subsd", XMM(1), XMM(0));
+			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
+			asm_ins2("btcq", IMM(63), R8(REG_RAX));
+			asm_label(0, end_label);
+		} else {
 			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
 		}
 		reg_to_scalar(REG_RAX, ins);
diff --git a/src/debug.c b/src/debug.c
index 41d2e1a..8efcc1c 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -121,6 +121,7 @@ const char *dbg_instruction(struct node *ins) {
 	case IR_INT_FLOAT_CAST: str = "int_float_cast %d"; break;
 	case IR_UINT_FLOAT_CAST: str = "uint_float_cast %d"; break;
 	case IR_FLOAT_INT_CAST: str = "float_int_cast %d"; break;
+	case IR_FLOAT_UINT_CAST: str = "float_uint_cast %d"; break;
 	case IR_VA_START: str = "va_start %d"; break;
 	case IR_ADD: str = "%d + %d"; break;
 	case IR_SUB: str = "%d - %d"; break;
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 36b8c26..d6bb6eb 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -468,8 +468,8 @@ struct node *ir_cast_int_to_float(struct node *operand, int target_size, int is_
 	return ir_new1(is_signed ? IR_INT_FLOAT_CAST : IR_UINT_FLOAT_CAST, operand, target_size);
 }
 
-struct node *ir_cast_float_to_int(struct node *operand, int target_size) {
-	return ir_new1(IR_FLOAT_INT_CAST, operand, target_size);
+struct node *ir_cast_float_to_int(struct node *operand, int target_size, int is_signed) {
+	return ir_new1(is_signed ? IR_FLOAT_INT_CAST : IR_FLOAT_UINT_CAST, operand, target_size);
 }
 
 struct node *ir_binary_not(struct node *operand) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index b5a5f2a..1feef6a 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -60,6 +60,7 @@ struct node {
 		IR_FLOAT_CAST,
 		IR_INT_FLOAT_CAST,
 		IR_FLOAT_INT_CAST,
+		IR_FLOAT_UINT_CAST,
 		IR_UINT_FLOAT_CAST,
 		IR_SET_ZERO_PTR,
 		IR_VA_START,
@@ -256,7 +257,7 @@ struct node *ir_phi(struct node *var_a, struct node *var_b);
 struct node *ir_bool_cast(struct node *operand);
 struct node *ir_cast_int(struct node *operand, int target_size, int sign_extend);
 struct node *ir_cast_float(struct node *operand, int target_size);
-struct node *ir_cast_float_to_int(struct node *operand, int target_size);
+struct node *ir_cast_float_to_int(struct node *operand, int target_size, int is_signed);
 struct node *ir_cast_int_to_float(struct node *operand, int target_size, int is_signed);
 
 struct node *ir_binary_not(struct node *operand);
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 38f0727..8600822 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -151,7 +151,7 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 	} else if(type_is_floating(resulting_type) && type_is_integer(operand_type)) {
 		res = ir_cast_int_to_float(operand_var, calculate_size(resulting_type), is_signed(operand_type->simple));
 	} else if(type_is_integer(resulting_type) && type_is_floating(operand_type)) {
-		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type));
+		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type), is_signed(resulting_type->simple));
 	}
 
 	return res;
-- 
2.43.0


From b8718c5a42544bdcd02623811045c8ebb95a80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 13/66] fix: give assignments to bit-fields the value of the
 bit-field

---
 src/parser/expression_to_ir.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 8600822..d4498ad 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -194,11 +194,27 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 	}
 }
 
+// The value of an assignment is the value the left operand gets, which
+// for a bit-field does not include the bits that don't fit.
+static struct node *assigned_value(struct evaluated_expression *lhs, struct node *rhs_var) {
+	if (lhs->type != EE_BITFIELD_POINTER)
+		return rhs_var;
+
+	return ir_get_bits(rhs_var, 0, lhs->bitfield_pointer.bitfield,
+					   lhs->bitfield_pointer.sign_extend);
+}
+
 static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_expression *rhs) {
 	assert(lhs->data_type == rhs->data_type);
 	if (calculate_size(rhs->data_type) <= 8) { // If fits into variable, take shortcut.
 		struct node *rhs_var = evaluated_expression_to_var(rhs);
 		assign_to_ee(lhs, rhs_var);
+
+		*rhs = (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.data_type = rhs->data_type,
+			.variable = assigned_value(lhs, rhs_var)
+		};
 	} else {
 		// Otherwise copy address.
 		struct node *rhs_adress = evaluated_expression_to_address(rhs);
@@ -526,7 +542,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = assigned_value(&lhs, lhs_var);
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From 90113b4f58264b1abc4295f2ba7de4fddd3c61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:24 +0000
Subject: [PATCH 14/66] fix: shift compound assignments in the promoted type of
 the left operand

---
 src/parser/expression.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 847bfd5..dcb9e02 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -348,7 +348,13 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The type of a shift only depends on the left operand.
+		expr->args[1] = expression_cast(expr->args[1], expr->args[0]->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From 817950929c3d9f161eeb94f3f4f3d1a7430d4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:58 +0000
Subject: [PATCH 15/66] fix: fold integer constants without traps, overflow or
 out of range shifts

---
 src/ir/operators.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..4111390 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -38,6 +38,27 @@ struct type *operators_get_result_type(enum operator_type op,
 	return returns_int[op] ? type_simple(ST_INT) : lhs_type;
 }
 
+// Not every operation on integer constants is defined.
+static int is_defined(enum operator_type op, enum simple_type type,
+					  struct constant lhs, struct constant rhs) {
+	constant_uint bits = 8 * calculate_size(type_simple(type));
+
+	switch (op) {
+	case OP_DIV:
+	case OP_MOD:
+		return rhs.uint_d != 0 &&
+			!(is_signed(type) && rhs.int_d == -1 &&
+			  lhs.uint_d << (64 - bits) == (constant_uint)1 << 63);
+
+	case OP_LSHIFT:
+	case OP_RSHIFT:
+		return rhs.uint_d < bits;
+
+	default:
+		return 1;
+	}
+}
+
 int operators_constant(enum operator_type op,
 					   struct constant lhs, struct constant rhs,
 					   struct constant *result) {
@@ -55,6 +76,9 @@ int operators_constant(enum operator_type op,
 
 	enum simple_type st = type->simple;
 
+	if (type_is_integer(type) && !is_defined(op, st, lhs, rhs))
+		return 0;
+
 	struct constant res = {
 		.type = CONSTANT_TYPE,
 		.data_type = operators_get_result_type(op, lhs.data_type, rhs.data_type)
@@ -89,20 +113,16 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
-		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
-			return 0;
-
 		switch (op) {
-		case OP_ADD: res.int_d = lhs.int_d + rhs.int_d; break;
-		case OP_SUB: res.int_d = lhs.int_d - rhs.int_d; break;
-		case OP_MUL: res.int_d = lhs.int_d * rhs.int_d; break;
+		case OP_ADD: res.int_d = lhs.uint_d + rhs.uint_d; break;
+		case OP_SUB: res.int_d = lhs.uint_d - rhs.uint_d; break;
+		case OP_MUL: res.int_d = lhs.uint_d * rhs.uint_d; break;
 		case OP_DIV: res.int_d = lhs.int_d / rhs.int_d; break;
 		case OP_MOD: res.int_d = lhs.int_d % rhs.int_d; break;
 		case OP_BXOR: res.int_d = lhs.int_d ^ rhs.int_d; break;
 		case OP_BOR: res.int_d = lhs.int_d | rhs.int_d; break;
 		case OP_BAND: res.int_d = lhs.int_d & rhs.int_d; break;
-		case OP_LSHIFT: res.int_d = lhs.int_d << rhs.int_d; break;
+		case OP_LSHIFT: res.int_d = lhs.uint_d << rhs.int_d; break;
 		case OP_RSHIFT: res.int_d = lhs.int_d >> rhs.int_d; break;
 		case OP_LESS: res.int_d = lhs.int_d < rhs.int_d; break;
 		case OP_GREATER: res.int_d = lhs.int_d > rhs.int_d; break;
@@ -112,6 +132,8 @@ int operators_constant(enum operator_type op,
 		case OP_NOT_EQUAL: res.int_d = lhs.int_d != rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		int sign = 0;
 		switch (op) {
@@ -174,10 +196,12 @@ int operators_constant_unary(enum unary_operator_type op,
 	} else if (type_is_integer(type) && is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.int_d = +rhs.int_d; break;
-		case UOP_NEG: res.int_d = -rhs.int_d; break;
+		case UOP_NEG: res.int_d = -rhs.uint_d; break;
 		case UOP_BNOT: res.int_d = ~rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.uint_d = +rhs.uint_d; break;
-- 
2.43.0


From 1637c505b133ac0bb605138f72efcf385dc2d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 16/66] fix: accept address constants with an index of any
 integer type

---
 src/parser/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index dcb9e02..5618b89 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -942,7 +942,7 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 
 		if (lhs.type == CONSTANT_LABEL_POINTER &&
-			type_is_simple(rhs.data_type, ST_INT) &&
+			type_is_integer(rhs.data_type) &&
 			rhs.type == CONSTANT_TYPE) {
 			*constant = lhs;
 			int size = calculate_size(type_deref(lhs.data_type));
-- 
2.43.0


From e28544c8cfc007e53bd87fe1e51bd2734ffc583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 17/66] fix: extend narrow integers before converting them to
 floating point

---
 src/parser/expression_to_ir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index d4498ad..1f3c320 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -149,6 +149,11 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 	} else if(type_is_floating(resulting_type) && type_is_floating(operand_type)) {
 		res = ir_cast_float(operand_var, calculate_size(resulting_type));
 	} else if(type_is_floating(resulting_type) && type_is_integer(operand_type)) {
+		// The conversion instructions read at least four bytes.
+		if (calculate_size(operand_type) < calculate_size(type_simple(ST_INT))) {
+			operand_var = variable_cast(operand_var, operand_type, type_simple(ST_INT));
+			operand_type = type_simple(ST_INT);
+		}
 		res = ir_cast_int_to_float(operand_var, calculate_size(resulting_type), is_signed(operand_type->simple));
 	} else if(type_is_integer(resulting_type) && type_is_floating(operand_type)) {
 		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type), is_signed(resulting_type->simple));
-- 
2.43.0


From 8e90f212e7588b50a007643b5b979250494d2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:55 +0000
Subject: [PATCH 18/66] fix: round constants of type float only once

---
 src/arch/x64.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index b10c57d..f1fa9e3 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -336,18 +336,17 @@ static int is_float(struct string_view str) {
 
 static struct constant floating_point_constant_from_string(struct string_view sv) {
 	char *str = sv_to_str(sv);
-	double d = strtod(str, NULL);
 	char suffix = str[strlen(str) - 1];
 
 	struct constant res = { .type = CONSTANT_TYPE };
 	if (suffix == 'f' || suffix == 'F') {
 		res.data_type = type_simple(ST_FLOAT);
-		res.float_d = d;
+		res.float_d = strtof(str, NULL);
 	} else if (suffix == 'l' || suffix == 'L') {
 		ICE("Constants of type long double is not supported by this compiler. %s", str);
 	} else {
 		res.data_type = type_simple(ST_DOUBLE);
-		res.double_d = d;
+		res.double_d = strtod(str, NULL);
 	}
 
 	return res;
-- 
2.43.0


From 67fddbc68e34891ee849f16c9438a830e7f54d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 19/66] fix: align objects in memory as their types and
 _Alignas require

---
 src/codegen/codegen.c    | 19 ++++++++++++-------
 src/codegen/rodata.c     |  9 +++++++--
 src/linker/object.c      |  5 ++---
 src/parser/declaration.c |  5 +++--
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 5c04ab3..ebe8fa6 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -710,13 +710,18 @@ static void codegen_function(struct node *func) {
 			if (ins->type == IR_ALLOC) {
 				perm_stack_count += ins->alloc.size;
 
-				if (ins->alloc.alignment) {
-					size_t remainder = perm_stack_count % ins->alloc.alignment;
-					if (remainder != 0)
-						perm_stack_count += ins->alloc.alignment - remainder;
-
-					stack_alignment = MAX(stack_alignment, (size_t)ins->alloc.alignment);
-				}
+				// The size of a type is a multiple of its alignment, so without an explicit
+				// alignment the largest power of two that divides the size is enough.
+				size_t alignment = ins->alloc.alignment;
+				if (!alignment)
+					alignment = ins->alloc.size % 8 == 0 ? 8 : ins->alloc.size % 4 == 0 ? 4 :
+						ins->alloc.size % 2 == 0 ? 2 : 1;
+
+				size_t remainder = perm_stack_count % alignment;
+				if (remainder != 0)
+					perm_stack_count += alignment - remainder;
+
+				stack_alignment = MAX(stack_alignment, alignment);
 
 				ins->alloc.stack_location = perm_stack_count;
 			}
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..9a0eff3 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -159,6 +159,7 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 }
 
 void codegen_initializer(struct type *type, struct initializer *init);
+static void codegen_pre_initializer(struct initializer *init);
 
 static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	switch ((*expr)->type) {
@@ -173,6 +174,8 @@ static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	case E_COMPOUND_LITERAL:
 		if (lvalue) {
 			label_id label = register_label();//register_label_name(sv_from_str(strdup(name)));
+			codegen_pre_initializer(&(*expr)->compound_literal.init);
+			asm_align(calculate_alignment((*expr)->compound_literal.type));
 			asm_label(0, label);
 			codegen_initializer((*expr)->compound_literal.type,
 								&(*expr)->compound_literal.init);
@@ -305,6 +308,10 @@ static void codegen_static_var(struct static_var *static_var) {
 	(void)static_var;
 	asm_section(".data");
 
+	// This can emit other objects, and has to be done before the alignment.
+	if (static_var->init.type != INIT_EMPTY)
+		codegen_pre_initializer(&static_var->init);
+
 	if (static_var->alignment)
 		asm_align(static_var->alignment);
 	else
@@ -315,8 +322,6 @@ static void codegen_static_var(struct static_var *static_var) {
 
 		asm_zero(calculate_size(static_var->type));
 	} else {
-		codegen_pre_initializer(&static_var->init);
-
 		asm_label(static_var->global, static_var->label_);
 
 		codegen_initializer(static_var->type, &static_var->init);
diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..ca0cc34 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -103,11 +103,10 @@ void object_write_zero(size_t size) {
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
 	size_t remainder = section->size % alignment;
-	if (remainder == 0)
-		return;
 
-	object_write_zero(alignment - remainder);
 	section->alignment = MAX(section->alignment, alignment);
+	if (remainder != 0)
+		object_write_zero(alignment - remainder);
 }
 
 void object_symbol_relocate(label_id label, int64_t offset, int64_t add, enum relocation_type type) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..4705bfc 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -203,7 +203,7 @@ static int parse_specifier(struct type_specifiers *ts,
 			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
 				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
 			}
-			as->alignment = constant->uint_d;
+			as->alignment = MAX(as->alignment, (int)constant->uint_d);
 			return 1;
 		}
 	}
@@ -1326,7 +1326,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		}
 	}
 
-	symbol->alignment = s.as.alignment;
+	if (s.as.alignment)
+		symbol->alignment = s.as.alignment;
 
 	if (!prev_definition) {
 		symbol->is_tentative = is_tentative;
-- 
2.43.0


From b7553563c44afb07409b8a549f5ea9e10821d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 20/66] fix: lay out bit-fields as the System V ABI does,
 restore the packing at #pragma pack(pop) and honour _Alignas on members

---
 src/abi/sysv.c                |   4 +-
 src/arch/x64.c                | 139 +++++++++++++++-------------------
 src/arch/x64.h                |   1 +
 src/ir/ir.c                   |  53 +++++++++++--
 src/ir/ir.h                   |   2 +
 src/parser/declaration.c      |   7 +-
 src/parser/expression_to_ir.c |  20 +++--
 src/parser/expression_to_ir.h |   2 +-
 src/parser/parser.c           |   2 +-
 src/types.h                   |   2 +
 10 files changed, 128 insertions(+), 104 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..a5c180d 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -548,8 +548,10 @@ void abi_init_sysv(void) {
 	struct type *vptr = type_pointer(type_simple(ST_VOID));
 
 	struct field *fields = cc_malloc(sizeof *fields * 4);
-	for (int i = 0; i < 4; i++)
+	for (int i = 0; i < 4; i++) {
 		fields[i].bitfield = -1;
+		fields[i].alignment = 0;
+	}
 	fields[0].type = uint;
 	fields[0].name = sv_from_str("gp_offset");
 	fields[1].type = uint;
diff --git a/src/arch/x64.c b/src/arch/x64.c
index f1fa9e3..e5dbb34 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -215,84 +215,73 @@ static int calculate_alignment_with_max(struct type *type, int packing) {
 	return alignment;
 }
 
+// Bit-fields follow each other without padding if packed. Otherwise a bit-field
+// never leaves the aligned unit it starts in.
+int struct_has_bytewise_bitfields(struct struct_data *data) {
+	return data->is_packed || data->packing;
+}
+
+static int64_t round_up_to_nearest64(int64_t num, int64_t div) {
+	return (num + div - 1) / div * div;
+}
+
+static int calculate_field_alignment(struct struct_data *data, struct field *field) {
+	int alignment = calculate_alignment(field->type);
+	if (field->bitfield != 0) // A zero width bit-field is unaffected by packing.
+		alignment = data->is_packed ? 1 : calculate_alignment_with_max(field->type, data->packing);
+	return MAX(alignment, field->alignment);
+}
+
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	int64_t position = 0, max_position = 0; // In bits.
 	int alignment = 1;
 
-	int last_bit_offset = 0;
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-
-		if (data->fields[i].bitfield == 0)
-			continue;
-
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
-
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
+		struct field *field = &data->fields[i];
+		int field_alignment = calculate_field_alignment(data, field);
+
+		if (data->is_union)
+			position = 0;
+
+		if (field->bitfield == -1) {
+			int size = 0;
+			if (i != data->n - 1 || field->type->type != TY_INCOMPLETE_ARRAY)
+				size = calculate_size(field->type);
+			if (size == -1)
+				ICE("%s has invalid size", dbg_type(field->type));
+
+			position = round_up_to_nearest64(position, (int64_t)field_alignment * 8);
+			field->offset = position / 8;
+			field->bit_offset = 0;
+			position += (int64_t)size * 8;
+		} else {
+			int unit_size = calculate_size(field->type);
+
+			// A bit-field can't occupy more units of its alignment than an object of
+			// its type would. A zero width bit-field ends the current unit.
+			if (field->bitfield == 0) {
+				position = round_up_to_nearest64(position, (int64_t)field_alignment * 8);
+			} else if (!struct_has_bytewise_bitfields(data)) {
+				int64_t first = position / (field_alignment * 8),
+					last = (position + field->bitfield + field_alignment * 8 - 1) / (field_alignment * 8);
+				if (last - first > unit_size / field_alignment)
+					position = round_up_to_nearest64(position, (int64_t)field_alignment * 8);
 			}
 
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
-		} else {
-			last_bit_offset = 0;
+			int64_t unit = struct_has_bytewise_bitfields(data) ? 8 : (int64_t)unit_size * 8;
+			field->offset = position / unit * (unit / 8);
+			field->bit_offset = position % unit;
+			position += field->bitfield;
 		}
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
-		}
+		// Unnamed bit-fields do not affect the alignment.
+		if (field->bitfield == -1 || field->name.len)
+			alignment = MAX(alignment, field_alignment);
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
-		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
-		}
+		max_position = MAX(max_position, position);
 	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
-
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up_to_nearest64(max_position, (int64_t)alignment * 8) / 8;
 	data->alignment = alignment;
 }
 
@@ -630,18 +619,12 @@ void constant_to_buffer(uint8_t *buffer, struct constant constant, int bit_offse
 	uint64_t value = constant_to_u64(constant);
 
 	if (bit_size != -1) {
-		uint64_t mask = gen_mask(64 - bit_size - bit_offset, bit_offset);
-
-		value <<= bit_offset;
-		uint64_t prev_value;
-		switch (size) {
-		case 1: prev_value = *buffer; break;
-		case 2: prev_value = *(uint16_t *)buffer; break;
-		case 4: prev_value = *(uint32_t *)buffer; break;
-		case 8: prev_value = *(uint64_t *)buffer; break;
-		default: NOTIMP();
+		for (int i = 0; i < bit_size; i++) {
+			int bit = bit_offset + i;
+			buffer[bit / 8] &= ~(1 << (bit % 8));
+			buffer[bit / 8] |= ((value >> i) & 1) << (bit % 8);
 		}
-		value = (prev_value & mask) | (value & ~mask);
+		return;
 	}
 
 	switch (size) {
diff --git a/src/arch/x64.h b/src/arch/x64.h
index c7ab62b..b8e4c70 100644
--- a/src/arch/x64.h
+++ b/src/arch/x64.h
@@ -35,6 +35,7 @@ enum simple_type to_unsigned(enum simple_type type);
 int calculate_size(struct type *type);
 int calculate_alignment(struct type *type);
 void calculate_offsets(struct struct_data *data);
+int struct_has_bytewise_bitfields(struct struct_data *data);
 
 int calculate_offset(struct type *type, int index);
 
diff --git a/src/ir/ir.c b/src/ir/ir.c
index d6bb6eb..882c51b 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -347,8 +347,47 @@ struct node *ir_get_bits(struct node *field, int offset, int length, int sign_ex
 	return ir_cast_int(field_large, field->size, 0);
 }
 
+// Bit-fields of packed structs can cross the boundaries of their type's
+// alignment, or be followed by the end of the object, so these only access the
+// bytes that contain the bit-field.
+struct node *ir_load_bits(struct node *pointer, int size, int offset, int length, int sign_extend, int bytewise) {
+	if (!bytewise)
+		return ir_get_bits(ir_load(pointer, size), offset, length, sign_extend);
+
+	struct node *result = ir_constant(constant_simple_unsigned(abi_info.size_type, 0));
+	for (int i = 0; i * 8 < offset + length; i++) {
+		int begin = MAX(offset, i * 8), end = MIN(offset + length, i * 8 + 8);
+
+		struct node *byte = ir_load(ir_get_offset(pointer, i), 1);
+		struct node *part = ir_cast_int(ir_get_bits(byte, begin - i * 8, end - begin, 0), 8, 0);
+		struct node *shift = ir_constant(constant_simple_unsigned(abi_info.size_type, begin - offset));
+		result = ir_binary_or(result, ir_left_shift(part, shift));
+	}
+
+	return ir_cast_int(ir_get_bits(result, 0, length, sign_extend), size, 0);
+}
+
+void ir_store_bits(struct node *pointer, struct node *value, int offset, int length, int bytewise) {
+	if (!bytewise) {
+		struct node *prev = ir_load(pointer, value->size);
+		ir_store(pointer, ir_set_bits(prev, value, offset, length));
+		return;
+	}
+
+	struct node *value_large = ir_cast_int(value, 8, 0);
+	for (int i = 0; i * 8 < offset + length; i++) {
+		int begin = MAX(offset, i * 8), end = MIN(offset + length, i * 8 + 8);
+
+		struct node *address = ir_get_offset(pointer, i);
+		struct node *shift = ir_constant(constant_simple_unsigned(abi_info.size_type, begin - offset));
+		struct node *part = ir_cast_int(ir_right_shift(value_large, shift, 0), 1, 0);
+		struct node *prev = ir_load(address, 1);
+		ir_store(address, ir_set_bits(prev, part, begin - i * 8, end - begin));
+	}
+}
+
 static void ir_init_var_recursive(struct initializer *init, struct type *type, struct node *offset,
-								  int bit_offset, int bit_size) {
+								  int bit_offset, int bit_size, int bytewise) {
 	switch (init->type) {
 	case INIT_BRACE: {
 		for (int i = 0; i < init->brace.size; i++) {
@@ -356,16 +395,17 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 			struct type *child_type = type_select(type, i);
 			struct node *child_offset_var = ir_add(offset,
 														  ir_constant(constant_simple_unsigned(abi_info.size_type, child_offset)));
-			int bit_offset = -1, bit_size = -1;
+			int bit_offset = -1, bit_size = -1, bytewise = 0;
 
 			if (type->type == TY_STRUCT) {
 				struct field f = type->struct_data->fields[i];
 				bit_offset = f.bit_offset;
 				bit_size = f.bitfield;
+				bytewise = struct_has_bytewise_bitfields(type->struct_data);
 			}
 
 			ir_init_var_recursive(init->brace.entries + i, child_type, child_offset_var,
-								  bit_offset, bit_size);
+								  bit_offset, bit_size, bytewise);
 		}
 	} break;
 
@@ -374,10 +414,7 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 			expression_to_address(init->expr, offset);
 		} else {
 			struct node *value = expression_to_ir(init->expr);
-			struct node *prev = ir_load(offset, value->size);
-			struct node *new = ir_set_bits(prev, value, bit_offset, bit_size);
-
-			ir_store(offset, new);
+			ir_store_bits(offset, value, bit_offset, bit_size, bytewise);
 		}
 		break;
 
@@ -399,7 +436,7 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 void ir_init_ptr(struct initializer *init, struct type *type, struct node *ptr) {
 	ir_set_zero_ptr(ptr, calculate_size(type));
 
-	ir_init_var_recursive(init, type, ptr, -1, -1);
+	ir_init_var_recursive(init, type, ptr, -1, -1, 0);
 }
 
 static void register_usage(struct node *block, struct node *var) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index 1feef6a..cdcf8a1 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -279,6 +279,8 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs);
 
 struct node *ir_set_bits(struct node *field, struct node *value, int offset, int length);
 struct node *ir_get_bits(struct node *field, int offset, int length, int sign_extend);
+struct node *ir_load_bits(struct node *pointer, int size, int offset, int length, int sign_extend, int bytewise);
+void ir_store_bits(struct node *pointer, struct node *value, int offset, int length, int bytewise);
 
 struct node *ir_get_offset(struct node *base_address, int offset);
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 4705bfc..7a33df1 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -405,7 +405,8 @@ int parse_struct(struct type_specifiers *ts) {
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
-					.bitfield = bitfield
+					.bitfield = bitfield,
+					.alignment = s.as.alignment
 				};
 
 				TACCEPT(T_COMMA);
@@ -458,15 +459,13 @@ int parse_struct(struct type_specifiers *ts) {
 			.is_complete = 1,
 			.is_union = is_union,
 			.packing = get_current_packing(),
+			.is_packed = is_packed,
 
 			.fields = fields,
 
 			.name = name
 		};
 
-		if (is_packed)
-			data->packing = 1;
-
 		calculate_offsets(data);
 		type_remove_unnamed(data);
 
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 1f3c320..1152582 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -103,12 +103,12 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 struct node *evaluated_expression_to_var(struct evaluated_expression *evaluated_expression) {
 	switch (evaluated_expression->type) {
 	case EE_BITFIELD_POINTER: {
-		struct node *var = ir_load(evaluated_expression->bitfield_pointer.pointer,
-							 calculate_size(evaluated_expression->data_type));
-
-		return ir_get_bits(var, evaluated_expression->bitfield_pointer.offset,
-						   evaluated_expression->bitfield_pointer.bitfield,
-						   evaluated_expression->bitfield_pointer.sign_extend);
+		return ir_load_bits(evaluated_expression->bitfield_pointer.pointer,
+							calculate_size(evaluated_expression->data_type),
+							evaluated_expression->bitfield_pointer.offset,
+							evaluated_expression->bitfield_pointer.bitfield,
+							evaluated_expression->bitfield_pointer.sign_extend,
+							evaluated_expression->bitfield_pointer.bytewise);
 	}
 
 	case EE_CONSTANT:
@@ -188,11 +188,8 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 		break;
 
 	case EE_BITFIELD_POINTER: {
-		struct node *prev = ir_load(lhs->bitfield_pointer.pointer, rhs_var->size);
-
-		struct node *new = ir_set_bits(prev, rhs_var, lhs->bitfield_pointer.offset, lhs->bitfield_pointer.bitfield);
-
-		ir_store(lhs->bitfield_pointer.pointer, new);
+		ir_store_bits(lhs->bitfield_pointer.pointer, rhs_var, lhs->bitfield_pointer.offset,
+					  lhs->bitfield_pointer.bitfield, lhs->bitfield_pointer.bytewise);
 	} break;
 		
 	default: NOTIMP();
@@ -402,6 +399,7 @@ static struct evaluated_expression evaluate_dot_operator(struct expr *expr) {
 				.bitfield = data->fields[idx].bitfield,
 				.offset = data->fields[idx].bit_offset,
 				.sign_extend = is_signed(data->fields[idx].type->simple),
+				.bytewise = struct_has_bytewise_bitfields(data),
 			}
 		};
 	}
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index 33fecc7..6010d86 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -34,7 +34,7 @@ struct evaluated_expression {
 
 		struct {
 			struct node *pointer;
-			int bitfield, offset, sign_extend;
+			int bitfield, offset, sign_extend, bytewise;
 		} bitfield_pointer;
 	};
 };
diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..a47283f 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -45,7 +45,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
diff --git a/src/types.h b/src/types.h
index 0b65518..f34f386 100644
--- a/src/types.h
+++ b/src/types.h
@@ -101,6 +101,7 @@ struct struct_data {
 	int is_complete,
 		is_union;
 	int packing; // 0 if default packing.
+	int is_packed; // By attribute, bit-fields are not aligned at all.
 
 	int n;
 	struct field {
@@ -109,6 +110,7 @@ struct struct_data {
 		int bitfield; // -1 means no bit-field.
 		int offset;
 		int bit_offset;
+		int alignment; // Requested by _Alignas, 0 if none.
 	} *fields;
 
 	int alignment, size;
-- 
2.43.0


From 5aea10ef9dadc5b958b0f5d87e389566377208f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 21/66] fix: align automatic objects of over-aligned types,
 limit _Alignas by #pragma pack

---
 src/abi/microsoft.c           |  2 +-
 src/abi/sysv.c                |  2 +-
 src/arch/x64.c                | 21 +++++++++------------
 src/parser/declaration.c      |  4 ++--
 src/parser/expression_to_ir.c |  3 ++-
 5 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index dc658c5..c72115a 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -172,7 +172,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 		struct symbol_identifier *symbol = args[i];
 
 		struct type *type = symbol->parameter.type;
-		struct node *address = ir_allocate(calculate_size(type), symbol->alignment);
+		struct node *address = ir_allocate(calculate_size(type), MAX(calculate_alignment(type), symbol->alignment));
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index a5c180d..9324d14 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -321,7 +321,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 
 		struct type *type = symbol->parameter.type;
 		int size = calculate_size(type);
-		struct node *address = ir_allocate(size, symbol->alignment);
+		struct node *address = ir_allocate(size, MAX(calculate_alignment(type), symbol->alignment));
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/arch/x64.c b/src/arch/x64.c
index e5dbb34..483424b 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -206,15 +206,6 @@ int calculate_offset(struct type *type, int index) {
 	}
 }
 
-static int calculate_alignment_with_max(struct type *type, int packing) {
-	int alignment = calculate_alignment(type);
-	if (packing == 0)
-		return alignment;
-	if (alignment > packing)
-		return packing;
-	return alignment;
-}
-
 // Bit-fields follow each other without padding if packed. Otherwise a bit-field
 // never leaves the aligned unit it starts in.
 int struct_has_bytewise_bitfields(struct struct_data *data) {
@@ -227,9 +218,15 @@ static int64_t round_up_to_nearest64(int64_t num, int64_t div) {
 
 static int calculate_field_alignment(struct struct_data *data, struct field *field) {
 	int alignment = calculate_alignment(field->type);
-	if (field->bitfield != 0) // A zero width bit-field is unaffected by packing.
-		alignment = data->is_packed ? 1 : calculate_alignment_with_max(field->type, data->packing);
-	return MAX(alignment, field->alignment);
+	if (field->bitfield == 0) // Unaffected by packing.
+		return alignment;
+
+	if (data->is_packed)
+		alignment = 1;
+	alignment = MAX(alignment, field->alignment);
+	if (data->packing)
+		alignment = MIN(alignment, data->packing);
+	return alignment;
 }
 
 void calculate_offsets(struct struct_data *data) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7a33df1..fd1c042 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1373,10 +1373,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ptr = ir_allocate(calculate_size(type), MAX(calculate_alignment(type), symbol->alignment));
 					ir_init_ptr(&init, type, ptr);
 				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ptr = ir_allocate(calculate_size(type), MAX(calculate_alignment(type), symbol->alignment));
 				}
 				symbol->variable.ptr = ptr;
 			}
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 1152582..60e70b8 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -445,7 +445,8 @@ static struct evaluated_expression evaluate_array_ptr_decay(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_compound_literal(struct expr *expr) {
-	struct node *address = ir_allocate(calculate_size(expr->compound_literal.type), 0);
+	struct node *address = ir_allocate(calculate_size(expr->compound_literal.type),
+									   calculate_alignment(expr->compound_literal.type));
 	ir_init_ptr(&expr->compound_literal.init, expr->compound_literal.type, address);
 
 	return (struct evaluated_expression) {
-- 
2.43.0


From e9be7df212e75719342aefc09a436f18a46d4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 22/66] fix: enumerators whose values fit have type int

---
 src/parser/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index fd1c042..5530542 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -250,6 +250,13 @@ static int parse_enumerator(struct constant *prev, int first) {
 			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
 
 		val = *ret;
+
+		// Enumerators have type int.
+		if (val.type == CONSTANT_TYPE && type_is_integer(val.data_type)) {
+			struct constant as_int = constant_cast(val, type_simple(ENUM_TYPE));
+			if (constant_to_u64(as_int) == constant_to_u64(val))
+				val = as_int;
+		}
 	} else {
 		if (!first)
 			val = constant_increment(*prev);
-- 
2.43.0


From 38b1192e30e4a460856921c6beba8e66a77c9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 23/66] fix: do not evaluate the unselected operand of ?: in
 constant expressions

---
 src/parser/expression.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5618b89..9bc5bc7 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1018,24 +1018,17 @@ int evaluate_constant_expression(struct expr *expr,
 	} break;
 
 	case E_CONDITIONAL: {
-		struct constant lhs, mid, rhs;
-		if (!evaluate_constant_expression(expr->args[0], &lhs))
-			return 0;
-		if (!evaluate_constant_expression(expr->args[1], &mid))
-			return 0;
-		if (!evaluate_constant_expression(expr->args[2], &rhs))
+		struct constant lhs, result;
+		if (!evaluate_constant_expression(expr->args[0], &lhs) ||
+			lhs.type != CONSTANT_TYPE)
 			return 0;
 
-		if (lhs.type != CONSTANT_TYPE ||
-			mid.type != CONSTANT_TYPE ||
-			rhs.type != CONSTANT_TYPE)
+		// The operand that is not selected is not evaluated, and need not have a value.
+		if (!evaluate_constant_expression(expr->args[constant_is_zero(&lhs) ? 2 : 1], &result) ||
+			result.type == CONSTANT_LABEL)
 			return 0;
 
-		if (constant_is_zero(&lhs)) {
-			*constant = rhs;
-		} else {
-			*constant = mid;
-		}
+		*constant = result;
 	} break;
 
 	case E_ADDRESS_OF: {
-- 
2.43.0


From d9c244b3df212576cb7db781e2b2e3c65e1ba61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 24/66] fix: decode hexadecimal escape sequences in base 16,
 classify every byte

---
 src/character_types.c | 2 +-
 src/escape_sequence.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/character_types.c b/src/character_types.c
index 9835ee7..f694cf5 100644
--- a/src/character_types.c
+++ b/src/character_types.c
@@ -10,7 +10,7 @@ enum {
 	C_IDENTIFIER_NONDIGIT = 0x20,
 };
 
-static const unsigned char char_props[UCHAR_MAX] = {
+static const unsigned char char_props[UCHAR_MAX + 1] = {
 	['\t'] = 0x10, 0x10, 0x10, 0x10,
 	[' '] = 0x10, ['$'] = 0x20,
 	['_'] = 0x20,
diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From e1592594db6c2cdb8f7c9e189e7195c73f5da493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:56 +0000
Subject: [PATCH 25/66] fix: do not hang on values used by unreachable
 predecessors of a block

---
 src/ir/global_code_motion.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index ef1ae9c..ae14564 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -45,10 +45,11 @@ static void schedule_user_late(struct node *ins, struct node *y,
 		struct node *block = y->arguments[0];
 		assert(block->type == IR_REGION);
 
-		if (y->arguments[1] == ins)
+		// Control never comes from an unreachable predecessor.
+		if (y->arguments[1] == ins && block->arguments[0]->block_info.idom)
 			*lca = intersect(*lca, block->arguments[0]);
 
-		if (y->arguments[2] == ins)
+		if (y->arguments[2] == ins && block->arguments[1]->block_info.idom)
 			*lca = intersect(*lca, block->arguments[1]);
 	} else {
 		*lca = intersect(*lca, use);
-- 
2.43.0


From 15274c226c95db960df7a3cb0ecbe5bdc36afd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:05 +0000
Subject: [PATCH 26/66] fix: schedule the operands of phi nodes independently
 of the phi

---
 src/ir/ir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 882c51b..d0e4995 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -801,7 +801,9 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 
 	node->visited = 5;
 
-	for (unsigned i = 0; i < IR_MAX; i++) {
+	// A phi node gets its value in the predecessors, so its operands
+	// can come after it.
+	for (unsigned i = 0; i < IR_MAX && node->type != IR_PHI; i++) {
 		struct node *arg = node->arguments[i];
 
 		if (arg && arg->block == node->block)
-- 
2.43.0


From d87c982bac08b5d97d9e34cc3e338c75e43dea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 27/66] fix: do not promote loads to a load that has been
 replaced

---
 src/optimize/mem2reg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/optimize/mem2reg.c b/src/optimize/mem2reg.c
index dccedd0..079fd7a 100644
--- a/src/optimize/mem2reg.c
+++ b/src/optimize/mem2reg.c
@@ -7,8 +7,13 @@
 #include <stdlib.h>
 
 static struct node *recursive_find(struct node *state, struct node *alloc, int visit_idx) {
-	if (state->visited == visit_idx && state->scratch)
+	if (state->visited == visit_idx && state->scratch) {
+		// The value might be a load that has been replaced since.
+		while (state->scratch->type == IR_LOAD && state->scratch->arguments[0] == alloc &&
+			   state->scratch->visited == visit_idx)
+			state->scratch = state->scratch->scratch;
 		return state->scratch;
+	}
 
 	struct node *ret_value = NULL;
 	state->visited = visit_idx;
@@ -101,6 +106,8 @@ static void try_remove_alloc(struct node *alloc, int visit_idx) {
 		case IR_LOAD: {
 			struct node *replacement = recursive_find(use->arguments[1], alloc, visit_idx);
 			ir_replace_node(use, replacement);
+			use->visited = visit_idx;
+			use->scratch = replacement;
 		} break;
 		default:;
 		}
-- 
2.43.0


From ec8eea798fe6f1a06310ffba4432690590e0b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 28/66] fix: classify struct parameters as the System V ABI
 does

---
 src/arch/calling.c | 95 +++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 57 deletions(-)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..5cf878f 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -46,43 +46,37 @@ static enum parameter_class combine_class(enum parameter_class a, enum parameter
 	return CLASS_SSE;
 }
 
-static void classify_recursively(enum parameter_class *current,
-								 struct type *type, int lower, int upper) {
+// Merge the classes of everything in the type, when placed at offset, into the
+// classes of the eightbytes. Unaligned members force the type into memory.
+static void classify_recursively(enum parameter_class *classes, struct type *type, int offset) {
+	enum parameter_class class;
+	if (classify_non_recursive(type, &class)) {
+		if (offset % calculate_alignment(type) != 0)
+			class = CLASS_MEMORY;
+		classes[offset / 8] = combine_class(classes[offset / 8], class);
+		return;
+	}
+
 	switch (type->type) {
 	case TY_STRUCT: {
 		struct struct_data *data = type->struct_data;
 		for (int i = 0; i < data->n; i++) {
-			struct type *memb_type = data->fields[i].type;
-			int size = calculate_size(memb_type);
-			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
-				continue;
-
-			enum parameter_class memb_class;
-			if (classify_non_recursive(memb_type, &memb_class)) {
-				*current = combine_class(*current, memb_class);
-			} else {
-				classify_recursively(current, memb_type, lower - offset, upper - offset);
+			struct field *field = &data->fields[i];
+
+			if (field->bitfield == -1) {
+				classify_recursively(classes, field->type, offset + field->offset);
+			} else if (field->bitfield > 0 && field->name.len) {
+				int first_bit = (offset + field->offset) * 8 + field->bit_offset;
+				for (int j = first_bit / 64; j <= (first_bit + field->bitfield - 1) / 64; j++)
+					classes[j] = combine_class(classes[j], CLASS_INTEGER);
 			}
 		}
 	} break;
 
 	case TY_ARRAY: {
-		for (size_t i = 0; i < type->array.length; i++) {
-			struct type *memb_type = type->children[0];
-			int size = calculate_size(memb_type);
-			int offset = size * i;
-
-			if (offset + size < lower || offset >= upper)
-				continue;
-
-			enum parameter_class memb_class;
-			if (classify_non_recursive(memb_type, &memb_class)) {
-				*current = combine_class(*current, memb_class);
-			} else {
-				classify_recursively(current, memb_type, lower - offset, upper - offset);
-			}
-		}
+		int size = calculate_size(type->children[0]);
+		for (size_t i = 0; i < type->array.length; i++)
+			classify_recursively(classes, type->children[0], offset + size * i);
 	} break;
 
 	case TY_INCOMPLETE_ARRAY: {
@@ -101,39 +95,26 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 	} else if (type->type == TY_STRUCT) {
 		int size = calculate_size(type);
 
-		// post cleanup:
+		*n_parts = 1;
+		classes[0] = CLASS_MEMORY;
 
-		if (size > 4 * 8) {
-			*n_parts = 1;
-			classes[0] = CLASS_MEMORY;
-		} else {
-			*n_parts = round_up_to_nearest(size, 8) / 8;
-			for (int i = 0; i < *n_parts; i++) {
-				classes[i] = CLASS_NO_CLASS;
-				classify_recursively(&classes[i], type, i * 8, (i + 1) * 8);
-			}
+		// There are no vector types, so nothing above two eightbytes
+		// can be passed in registers.
+		if (size == 0 || size > 2 * 8)
+			return;
 
-			int should_be_mem = 0;
-			for (int i = 0; i < *n_parts; i++) {
-				if (classes[i] == CLASS_MEMORY)
-					should_be_mem = 1;
-				if (classes[i] == CLASS_X87UP &&
-					!(i > 0 && classes[i - 1] == CLASS_X87))
-					should_be_mem = 1;
-			}
+		enum parameter_class parts[2] = { CLASS_NO_CLASS, CLASS_NO_CLASS };
+		classify_recursively(parts, type, 0);
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
-					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
-			}
-
-			if (should_be_mem) {
-				*n_parts = 1;
-				classes[0] = CLASS_MEMORY;
-			}
+		int size_parts = round_up_to_nearest(size, 8) / 8;
+		for (int i = 0; i < size_parts; i++) {
+			if (parts[i] == CLASS_MEMORY)
+				return;
 		}
+
+		*n_parts = size_parts;
+		for (int i = 0; i < size_parts; i++)
+			classes[i] = parts[i];
 	} else {
 		printf("Can't classify type: %s", dbg_type(type));
 	}
-- 
2.43.0


From 0e13b4a50f5efbd7c57c9ec13d16eb22688a9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 29/66] fix: pass and return structs and floating-point
 variadic arguments as the System V ABI does, release the stack used for
 arguments

---
 src/abi/sysv.c        | 168 +++++++++++++++++++++++++++---------------
 src/codegen/codegen.c |  17 ++++-
 src/codegen/codegen.h |   1 +
 3 files changed, 122 insertions(+), 64 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9324d14..1e651f7 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -13,6 +13,9 @@
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
+#define MAX_GP_REG 6
+#define MAX_SSE_REG 8
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -48,7 +51,7 @@ struct call_info {
 	int returns_address;
 	int ret_address_index;
 
-	int gp_offset;
+	int gp_offset, fp_offset;
 
 	int rax;
 
@@ -77,7 +80,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	int shadow_space = 0;
 
 	int current_gp_reg = 0, current_sse_reg = 0;
-	const int max_gp_reg = 6, max_sse_reg = 8;
+	const int max_gp_reg = MAX_GP_REG, max_sse_reg = MAX_SSE_REG;
 	if (!type_is_simple(return_type, ST_VOID)) {
 		int n_parts;
 		enum parameter_class classes[4];
@@ -94,18 +97,23 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 			};
 		} else {
 			int gp_idx = 0, ssa_idx = 0;
+			int return_size = calculate_size(return_type);
 			for (int j = 0; j < n_parts; j++) {
+				int part_size = MIN(return_size - j * 8, 8);
+
 				if (classes[j] == CLASS_SSE || classes[j] == CLASS_SSEUP) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 1,
 						.register_idx = ssa_idx++,
-						.size = 8,
+						.merge_pos = j * 8,
+						.size = part_size,
 					};
-				} else {
+				} else if (classes[j] == CLASS_INTEGER) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = return_convention[gp_idx++],
-						.size = 8,
+						.merge_pos = j * 8,
+						.size = part_size,
 					};
 				}
 			}
@@ -128,8 +136,6 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 				n_sse_regs++;
 			else if (classes[j] == CLASS_INTEGER)
 				n_gp_regs++;
-			else
-				NOTIMP();
 		}
 
 		const int is_memory = classes[0] == CLASS_MEMORY ||
@@ -150,7 +156,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 						.merge_pos = j * 8,
 						.size = part_size,
 					};
-				} else {
+				} else if (classes[j] == CLASS_INTEGER) {
 					ADD_ELEMENT(regs_size, regs_cap, regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = calling_convention[current_gp_reg++],
@@ -180,6 +186,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 		.ret_address_index = ret_address_index,
 
 		.gp_offset = gp_offset,
+		.fp_offset = MAX_GP_REG * 8 + current_sse_reg * 16,
 
 		.rax = current_sse_reg,
 
@@ -187,16 +194,16 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
-	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
+// Position of an argument on the stack after the ones that take up current_mem bytes.
+static int stack_argument_position(int current_mem, struct type *type) {
+	return round_up_to_nearest(current_mem, MAX(calculate_alignment(type), 8));
 }
 
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_GP_REG + MAX_SSE_REG];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -212,7 +219,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 	struct node *ret_address;
 
 	if (c.returns_address) {
-		ret_address = ir_allocate(calculate_size(return_type), 0);
+		ret_address = ir_allocate(calculate_size(return_type), calculate_alignment(return_type));
 		reg_variables[c.ret_address_index] = ret_address;
 	}
 
@@ -230,7 +237,9 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 	int total_mem_needed = 0;
 	for (int i = 0; i < c.stack_variables_size; i++) {
-		total_mem_needed += round_up_to_nearest(calculate_size(argument_types[c.stack_variables[i]]), 8);
+		struct type *type = argument_types[c.stack_variables[i]];
+		total_mem_needed = stack_argument_position(total_mem_needed, type);
+		total_mem_needed += round_up_to_nearest(calculate_size(type), 8);
 	}
 	int stack_sub = round_up_to_nearest(total_mem_needed, 16);
 
@@ -238,7 +247,9 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 	int current_mem = 0;
 	for (int i = 0; i < c.stack_variables_size; i++) {
-		int size = calculate_size(argument_types[c.stack_variables[i]]);
+		struct type *type = argument_types[c.stack_variables[i]];
+		int size = calculate_size(type);
+		current_mem = stack_argument_position(current_mem, type);
 		call_stack = ir_store_stack_relative_address(call_stack, arg_addresses[c.stack_variables[i]], current_mem + c.shadow_space, size);
 		current_mem += round_up_to_nearest(size, 8);
 	}
@@ -264,17 +275,16 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 			.data_type = return_type,
 			.pointer = ret_address,
 		};
-	} else if (c.ret_regs_size == 1) {
-		struct node *variable = ir_cast_int(ret_reg_variables[0], calculate_size(return_type), 0);
+	} else if (c.ret_regs_size == 1 && c.ret_regs[0].size == calculate_size(return_type)) {
 		result = (struct evaluated_expression) {
 			.type = EE_VARIABLE,
 			.data_type = return_type,
-			.variable = variable,
+			.variable = ret_reg_variables[0],
 		};
-	} else if (c.ret_regs_size == 2) {
-		struct node *address = ir_allocate(calculate_size(return_type), 0);
-		ir_store_part_address(address, ret_reg_variables[0], 0);
-		ir_store_part_address(address, ret_reg_variables[1], 8);
+	} else if (c.ret_regs_size) {
+		struct node *address = ir_allocate(calculate_size(return_type), calculate_alignment(return_type));
+		for (int i = 0; i < c.ret_regs_size; i++)
+			ir_store_part_address(address, ret_reg_variables[i], c.ret_regs[i].merge_pos);
 		result = (struct evaluated_expression) {
 			.type = EE_POINTER,
 			.data_type = return_type,
@@ -291,7 +301,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_GP_REG + MAX_SSE_REG];
 
 	struct sysv_data abi_data = { 0 };
 
@@ -337,10 +347,11 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		struct node *address = arg_addresses[idx];
 		struct type *arg_type = type->children[idx + 1];
 		int size = calculate_size(arg_type);
+		current_mem = stack_argument_position(current_mem, arg_type);
 
 		ir_load_base_relative_address(call_stack, address, current_mem + 16 + c.shadow_space, size);
 		current_mem += round_up_to_nearest(size, 8);
-		total_mem_needed += round_up_to_nearest(size, 8);
+		total_mem_needed = current_mem;
 	}
 
 	for (int i = 0; i < c.regs_size; i++) {
@@ -357,6 +368,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
         // Sized according to Figure 3.33 in sysV AMD64 ABI:
 		ir_allocate_preamble(304);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = c.fp_offset;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -374,24 +386,28 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	classify(value->data_type, &n_parts, classes);
 
 	*reg_state = NULL;
-	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
+	if (classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
-	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
-		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
-		struct node *value_address = evaluated_expression_to_address(value);
-		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
-	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
-		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);
 	} else {
-		NOTIMP();
+		int gp_idx = 0, sse_idx = 0;
+		int size = calculate_size(value->data_type);
+		struct node *value_address = n_parts > 1 ? evaluated_expression_to_address(value) : NULL;
+
+		for (int i = 0; i < n_parts; i++) {
+			if (classes[i] == CLASS_NO_CLASS)
+				continue;
+
+			struct node *part = n_parts > 1 ? ir_load_part_address(value_address, i * 8, MIN(size - i * 8, 8)) :
+				evaluated_expression_to_var(value);
+
+			if (classes[i] == CLASS_INTEGER) {
+				*reg_state = ir_set_reg(part, *reg_state, return_convention[gp_idx++], 0);
+			} else {
+				*reg_state = ir_set_reg(part, *reg_state, sse_idx++, 1);
+			}
+		}
 	}
 
 unclobber:
@@ -411,6 +427,10 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+
+	// Only the low half of the registers is ever used.
+	for (int i = 0; i < MAX_SSE_REG; i++)
+		asm_ins2("movsd", XMM(i), MEM(MAX_GP_REG * 8 + i * 16 - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -421,8 +441,8 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
-	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
+	codegen_caller_address(abi_data->overflow_position, REG_RDI);
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
 	int preamble_ptr = codegen_get_alloc_preamble();
@@ -436,34 +456,43 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	classify(type, &n_parts, classes);
 
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
+	int size = calculate_size(type);
 	// 1. Determine whether type may be passed in the registers. If not go to step 7
 	scalar_to_reg(va_list, REG_RDI);
 
 	label_id stack_label = register_label(),
-		fetch_label = register_label();
+		end_label = register_label();
 	if (classes[0] != CLASS_MEMORY) {
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
-			else
-				NOTIMP();
+			else if (classes[i] == CLASS_SSE)
+				num_fp++;
 		}
 
 		// 3. Verify whether arguments fit into registers. In the case:
 		//     l->gp_offset > 48 − num_gp ∗ 8
 		// or
-		//     l->fp_offset > 304 − num_fp ∗ 16
+		//     l->fp_offset > 176 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
-		asm_ins1("ja", IMML_ABS(stack_label, 0));
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(MAX_GP_REG * 8 - 8 * num_gp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(MAX_GP_REG * 8 + MAX_SSE_REG * 16 - 16 * num_fp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
 		// and/or l->fp_offset. This may require copying to a temporary loca-
@@ -476,33 +505,50 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
-		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
-		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
+		for (int i = 0; i < n_parts; i++) {
+			if (classes[i] == CLASS_NO_CLASS)
+				continue;
+
+			int is_sse = classes[i] == CLASS_SSE;
+			int offset_offset = is_sse ? fp_offset_offset : gp_offset_offset;
+
+			asm_ins2("movl", MEM(offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("leal", MEM(is_sse ? 16 : 8, REG_RAX), R4(REG_RDX));
+			asm_ins2("movl", R4(REG_RDX), MEM(offset_offset, REG_RDI));
+			asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
+			asm_ins2("movq", MEM(0, REG_RAX), R8(REG_RAX));
+			scalar_to_reg(address, REG_RSI);
+			asm_ins2("leaq", MEM(i * 8, REG_RSI), R8(REG_RSI));
+			reg_to_memory(REG_RAX, MIN(size - i * 8, 8));
+		}
+
+		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
-	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
+	//ment needed by type exceeds 8 byte boundary.
 	asm_label(0, stack_label);
 
-	// 8. Fetch type from l->overflow_arg_area.
-
 	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDI), R8(REG_RAX));
+	int alignment = calculate_alignment(type);
+	if (alignment > 8) {
+		asm_ins2("leaq", MEM(alignment - 1, REG_RAX), R8(REG_RAX));
+		asm_ins2("andq", IMM(-alignment), R8(REG_RAX));
+	}
+
+	// 8. Fetch type from l->overflow_arg_area.
 
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
 	// 10. Align l->overflow_arg_area upwards to an 8 byte boundary.
-	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RAX), R8(REG_RDX));
+	asm_ins2("leaq", MEM(round_up_to_nearest(size, 8), REG_RAX), R8(REG_RDX));
 	asm_ins2("movq", R8(REG_RDX), MEM(overflow_arg_area_offset, REG_RDI));
 
 	// 11. Return the fetched type.
-	asm_label(0, fetch_label);
-
-	// Address is now in %%rax.
 	asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
 	scalar_to_reg(address, REG_RSI);
 
-	codegen_memcpy(calculate_size(type));
+	codegen_memcpy(size);
+	asm_label(0, end_label);
 }
 
 static int sysv_sizeof_simple(enum simple_type type) {
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index ebe8fa6..c735d46 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -29,6 +29,17 @@ struct rbp_save_info {
 	int offset;
 } rbp_save_info;
 
+// Address relative to the value %rbp gets on entry, which is where the caller left
+// the arguments. The frame itself is elsewhere if it had to be aligned.
+void codegen_caller_address(int offset, int reg) {
+	if (rbp_save_info.has_saved_rsp) {
+		asm_ins2("movq", MEM(-rbp_save_info.offset, REG_RBP), R8(reg));
+		asm_ins2("leaq", MEM(offset, reg), R8(reg));
+	} else {
+		asm_ins2("leaq", MEM(offset, REG_RBP), R8(reg));
+	}
+}
+
 static void codegen_call(struct node *variable, int non_clobbered_register) {
 	scalar_to_reg(variable, non_clobbered_register);
 	asm_ins1("callq", R8S(non_clobbered_register));
@@ -300,7 +311,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int change = codegen_call_stack_chain(ins->arguments[3]);
 		codegen_set_reg_chain(ins->arguments[2]);
 		codegen_call(ins->arguments[0], ins->call.non_clobbered_register);
-		asm_ins2("addq", IMM(change), R8(REG_RSP));
+		asm_ins2("addq", IMM(-change), R8(REG_RSP));
 		struct node *reg_source = ins->projects[1];
 		if (reg_source)
 			codegen_get_reg_uses(reg_source);
@@ -527,14 +538,14 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		break;
 
 	case IR_LOAD_BASE_RELATIVE:
-		asm_ins2("leaq", MEM(ins->load_base_relative.offset, REG_RBP), R8(REG_RDI));
+		codegen_caller_address(ins->load_base_relative.offset, REG_RDI);
 		asm_ins2("leaq", MEM(-ins->cg_info.stack_location, REG_RBP), R8(REG_RSI));
 
 		codegen_memcpy(ins->size);
 		break;
 
 	case IR_LOAD_BASE_RELATIVE_ADDRESS:
-		asm_ins2("leaq", MEM(ins->load_base_relative_address.offset, REG_RBP), R8(REG_RDI));
+		codegen_caller_address(ins->load_base_relative_address.offset, REG_RDI);
 		scalar_to_reg(ins->arguments[0], REG_RSI);
 
 		codegen_memcpy(ins->load_base_relative_address.size);
diff --git a/src/codegen/codegen.h b/src/codegen/codegen.h
index 041de2d..8ec8080 100644
--- a/src/codegen/codegen.h
+++ b/src/codegen/codegen.h
@@ -16,6 +16,7 @@ extern struct codegen_flags {
 
 void codegen(void);
 int codegen_get_alloc_preamble(void);
+void codegen_caller_address(int offset, int reg);
 
 // TODO: Why is rdi not destination?
 // From rdi to rsi address
-- 
2.43.0


From d9f673bd51a3b1046a9df842f5bd57627b64c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:10 +0000
Subject: [PATCH 30/66] fix: align the register save area of variadic functions

---
 src/codegen/codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index c735d46..a39bd04 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -740,7 +740,8 @@ static void codegen_function(struct node *func) {
 	}
 
 	if (func->function.preamble_alloc) {
-		perm_stack_count += func->function.preamble_alloc;
+		// Callees that are handed a va_list may rely on the register save area being aligned.
+		perm_stack_count = round_up_to_nearest(perm_stack_count + func->function.preamble_alloc, 16);
 		vla_info.alloc_preamble = perm_stack_count;
 	}
 
-- 
2.43.0


From b3744bec57dcbce772012fdc297a55c3fee73b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 31/66] fix: copy by-reference arguments, return the address of
 a returned object and find variadic arguments as the Microsoft x64 ABI does

property=C11
---
 src/abi/microsoft.c | 46 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index c72115a..997618b 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -42,6 +42,18 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		argument_types[i] = arguments[i].data_type;
 	}
 
+	// What does not fit into a register is passed by reference to a copy.
+	struct node *args_to_push[128];
+	for (int i = 0; i < n; i++) {
+		int size = calculate_size(argument_types[i]);
+		if (fits_into_reg(argument_types[i])) {
+			args_to_push[i] = ir_load(arg_addresses[i], size);
+		} else {
+			args_to_push[i] = ir_allocate(size, MAX(calculate_alignment(argument_types[i]), 16));
+			ir_copy_memory(args_to_push[i], arg_addresses[i], size);
+		}
+	}
+
 	struct node *registers[4];
 	int is_floating[4] = { 0 };
 	int register_idx = 0;
@@ -53,7 +65,7 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(return_type)) {
 			ret_in_register = 1;
 		} else {
-			registers[0] = ir_allocate(calculate_size(return_type), 0);
+			registers[0] = ir_allocate(calculate_size(return_type), calculate_alignment(return_type));
 
 			register_idx++;
 
@@ -66,15 +78,10 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 	struct node *call_stack = ir_allocate_call_stack(-stack_sub - shadow_space);
 	int current_mem = 0;
 	for (int i = 0; i < n; i++) {
-		struct node *reg_to_push = arg_addresses[i];
-
-		if (fits_into_reg(argument_types[i])) {
-			reg_to_push = ir_load(arg_addresses[i],
-								  calculate_size(argument_types[i]));
-		}
+		struct node *reg_to_push = args_to_push[i];
 
 		if (register_idx < 4) {
-			is_floating[register_idx] = (i < callee_type->n - 1) ? type_is_floating(argument_types[i]) : 0;
+			is_floating[register_idx] = type_is_floating(argument_types[i]);
 			registers[register_idx++] = reg_to_push;
 		} else {
 			call_stack = ir_store_stack_relative(call_stack, reg_to_push, current_mem + shadow_space);
@@ -82,11 +89,16 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		}
 	}
 
+	int has_fixed_arguments = !callee_type->function.is_variadic && n == callee_type->n - 1;
+
 	struct node *reg_state = NULL;
 	for (int i = 0; i < register_idx; i++) {
 		if (is_floating[i])
 			reg_state = ir_set_reg(registers[i], reg_state, i, 1);
-		else
+
+		// A callee that is variadic, or has no prototype, looks for floating
+		// point arguments in the integer registers as well.
+		if (!is_floating[i] || !has_fixed_arguments)
 			reg_state = ir_set_reg(registers[i], reg_state, calling_convention[i], 0);
 	}
 
@@ -135,7 +147,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 	int register_idx = 0;
 	if (!type_is_simple(return_type, ST_VOID) && !fits_into_reg(return_type)) {
 		abi_data.returns_address = 1;
-		abi_data.ret_address = ir_get_reg(reg_source, 8, calling_convention[register_idx++], type_is_floating(return_type));
+		abi_data.ret_address = ir_get_reg(reg_source, 8, calling_convention[register_idx++], 0);
 	}
 
 	if (function_type->function.is_variadic) {
@@ -196,6 +208,7 @@ static void ms_expr_return(struct node *func, struct evaluated_expression *value
 		if (abi_data->returns_address) {
 			struct node *value_address = evaluated_expression_to_address(value);
 			ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+			*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);
 		} else {
 			struct node *value_var = evaluated_expression_to_var(value);
 			*reg_state = ir_set_reg(value_var, *reg_state, 0, type_is_floating(value->data_type));
@@ -213,16 +226,19 @@ static void ms_emit_function_preamble(struct node *func) {
 	if (!abi_data->is_variadic)
 		return;
 
-	asm_ins2("movq", R8(REG_RCX), MEM(16, REG_RBP));
-	asm_ins2("movq", R8(REG_RDX), MEM(24, REG_RBP));
-	asm_ins2("movq", R8(REG_R8), MEM(32, REG_RBP));
-	asm_ins2("movq", R8(REG_R9), MEM(40, REG_RBP));
+	codegen_caller_address(16, REG_RAX);
+	asm_ins2("movq", R8(REG_RCX), MEM(0, REG_RAX));
+	asm_ins2("movq", R8(REG_RDX), MEM(8, REG_RAX));
+	asm_ins2("movq", R8(REG_R8), MEM(16, REG_RAX));
+	asm_ins2("movq", R8(REG_R9), MEM(24, REG_RAX));
 }
 
 static void ms_emit_va_start(struct node *result, struct node *func) {
 	struct ms_data *abi_data = func->function.abi_data;
 
-	asm_ins2("leaq", MEM(abi_data->n_args * 8 + 16, REG_RBP), R8(REG_RAX));
+	int n_args = abi_data->n_args + abi_data->returns_address;
+
+	codegen_caller_address(n_args * 8 + 16, REG_RAX);
 	scalar_to_reg(result, REG_RDX);
 	asm_ins2("movq", R8(REG_RAX), MEM(0, REG_RDX));
 }
-- 
2.43.0


From cd92b93952a11dc8a90bbc9be45e1f3cc2635438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:56 +0000
Subject: [PATCH 32/66] fix: brace elision, designators and overriding in
 initializers as in C17 6.7.9, strings do not overflow their array

property=C08
---
 src/parser/declaration.c | 372 +++++++++++++++++++++------------------
 1 file changed, 201 insertions(+), 171 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5530542..da6e1f8 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -915,12 +915,38 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 	return ast;
 }
 
-static struct initializer *initializer_add_entry(struct initializer *init, int index) {
-	assert(init->type == INIT_BRACE);
+// Initializer of the sub-object with the given index, init initializes an aggregate or union.
+static struct initializer *initializer_add_entry(struct initializer *init, struct type *type, int index) {
+	if (init->type == INIT_STRING) {
+		// A string of which an element is overridden.
+		struct string_view str = init->string;
+		struct type *char_type = type->children[0];
+		int char_size = calculate_size(char_type);
+
+		*init = (struct initializer) { .type = INIT_BRACE };
+		for (int i = 0; i < str.len; i += char_size) {
+			uint64_t value = 0;
+			for (int j = 0; j < char_size; j++)
+				value |= (uint64_t)(unsigned char)str.str[i + j] << (8 * j);
+			initializer_add_entry(init, type, i / char_size)[0] = (struct initializer) {
+				.type = INIT_EXPRESSION,
+				.expr = expression_cast(EXPR_INTEGER(ST_ULLONG, value), char_type)
+			};
+		}
+	} else if (init->type != INIT_BRACE) {
+		*init = (struct initializer) { .type = INIT_BRACE };
+	}
 
 	while (init->brace.size <= index)
 		ADD_ELEMENT(init->brace.size, init->brace.cap, init->brace.entries) = (struct initializer) { .type = INIT_EMPTY };
 
+	// Only one member of a union can be initialized.
+	if (type->type == TY_STRUCT && type->struct_data->is_union) {
+		for (int i = 0; i < init->brace.size; i++)
+			if (i != index)
+				init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
+	}
+
 	return init->brace.entries + index;
 }
 
@@ -940,8 +966,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 
 		int braces = TACCEPT(T_LBRACE);
 		TEXPECT(token_type);
-		if (braces)
+		if (braces) {
+			TACCEPT(T_COMMA);
 			TEXPECT(T_RBRACE);
+		}
 
 		if ((*type)->type == TY_INCOMPLETE_ARRAY) {
 			struct type complete_array_params = {
@@ -953,8 +981,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			*type = type_create(&complete_array_params, (*type)->children);
 		}
 
-		init->type = INIT_STRING;
-		init->string = str;
+		// There might not be space for the null character.
+		str.len = MIN(str.len, calculate_size(*type));
+
+		*init = (struct initializer) { .type = INIT_STRING, .string = str };
 
 		return 1;
 	}
@@ -962,7 +992,22 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 	return 0;
 }
 
-static int match_string(struct type **type, struct initializer *init, struct token string_token) {
+// Is T0 the string of an initializer that consists of nothing but a string?
+static int is_lone_string(void) {
+	return is_string_type(T0->type) &&
+		(T1->type == T_COMMA || T1->type == T_RBRACE || T1->type == T_SEMI_COLON);
+}
+
+static int match_string(struct type **type, struct initializer *init) {
+	struct token string_token;
+	if (is_lone_string())
+		string_token = *T0;
+	else if (T0->type == T_LBRACE && is_string_type(T1->type) &&
+			 (T2->type == T_RBRACE || T2->type == T_COMMA))
+		string_token = *T1;
+	else
+		return 0;
+
 	return match_specific_string(type, init, string_token, ST_CHAR, T_STRING) ||
 		match_specific_string(type, init, string_token, ST_UCHAR, T_STRING) ||
 		match_specific_string(type, init, string_token, ST_SCHAR, T_STRING) ||
@@ -971,222 +1016,207 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 		match_specific_string(type, init, string_token, CHAR32_TYPE, T_STRING_CHAR32);
 }
 
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices);
+static struct expr *parse_initializer_expression(struct type *type) {
+	struct expr *expr = parse_assignment_expression();
+	if (!expr)
+		ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(type), dbg_token(T0));
+	return expr;
+}
 
-static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
-									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
-		*init = (struct initializer) { .type = INIT_BRACE };
+static void initializer_set_expression(struct initializer *init, struct type *type, struct expr *expr) {
+	*init = (struct initializer) {
+		.type = INIT_EXPRESSION,
+		.expr = expression_cast(expr, type)
+	};
+}
 
-	if (!inside_brace)
-		TEXPECT(T_LBRACE);
+// Path from the object of a brace-enclosed list to the sub-object that
+// the next initializer without a designator belongs to, see 6.7.9p17-20.
+struct initializer_path {
+	size_t size, cap;
+	struct initializer_level {
+		struct type *type;
+		struct initializer *init;
+		int idx; // Next sub-object.
+	} *levels;
+};
+
+static struct initializer_level *initializer_path_push(struct initializer_path *path,
+													   struct type *type, struct initializer *init, int idx) {
+	ADD_ELEMENT(path->size, path->cap, path->levels) = (struct initializer_level) { type, init, idx };
+	return path->levels + path->size - 1;
+}
 
-	int max_members = -1;
-	switch ((*type)->type) {
+// Number of sub-objects that can be initialized without designators, -1 if it is unlimited.
+static int initializer_n_members(struct type *type) {
+	switch (type->type) {
 	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
+		return type->array.length;
 	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
+		return -1;
 	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
+		if (type->struct_data->is_union)
+			return MIN(type->struct_data->n, 1);
+		return type->struct_data->n;
 	default: ICE("Invalid top type");
 	}
+}
 
-	if (max_members != -1 && inside_brace && idx >= max_members)
-		return;
-
-	for (;;) {
-		static int designator_cap = 0;
-		static int *designators = NULL;
-		int designator_size = 0;
-		struct type *current_type = *type;
-		for (;;) {
-			size_t index;
-			(void)index;
-			if (T0->type == T_LBRACK) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-				struct constant *c = expression_to_constant(expr);
-				if (!c)
-					ERROR(T0->pos, "Expected constant expression in array designator.");
-				TEXPECT(T_RBRACK);
-
-				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+static int parse_complete_initializer(struct type **type, struct initializer *init);
 
-				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
-				current_type = type_select(current_type, c->uint_d);
-			} else if (T0->type == T_DOT) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_DOT);
-				int n = 0, *indices = 0;
-				if (!type_search_member(current_type, T0->str, &n, &indices))
-					ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+// Let path->levels[path->size - 1].idx be the designated sub-object.
+static void parse_designators(struct initializer_path *path) {
+	path->size = 1;
 
-				TEXPECT(T_IDENT);
+	for (int first = 1; T0->type == T_LBRACK || T0->type == T_DOT; first = 0) {
+		struct initializer_level *level = path->levels + path->size - 1;
 
-				for (int i = n - 1; i >= 0; i--) {
-					ADD_ELEMENT(designator_size, designator_cap, designators) = indices[i];
-					current_type = type_select(current_type, indices[i]);
-				}
-			} else {
-				break;
-			}
+		if (!first) {
+			struct type *child_type = type_select(level->type, level->idx);
+			struct initializer *child = initializer_add_entry(level->init, level->type, level->idx);
+			level->idx++;
+			level = initializer_path_push(path, child_type, child, 0);
 		}
 
-		int *pass_designators = NULL;
-		int pass_n = 0;
+		if (TACCEPT(T_LBRACK)) {
+			if (level->type->type != TY_ARRAY && level->type->type != TY_INCOMPLETE_ARRAY)
+				ERROR(T0->pos, "Array designator in initializer of %s.", dbg_type(level->type));
+
+			struct expr *expr = parse_expression();
+			struct constant *c = expr ? expression_to_constant(expression_cast(expr, type_simple(ST_ULLONG))) : NULL;
+			if (!c || c->type != CONSTANT_TYPE)
+				ERROR(T0->pos, "Expected constant expression in array designator.");
+			TEXPECT(T_RBRACK);
 
-		if (designator_size) {
-			TEXPECT(T_A);
+			assert(type_is_simple(c->data_type, ST_ULLONG));
 
-			if (designator_size > 0)
-				idx = designators[0];
+			if (level->type->type == TY_ARRAY && c->uint_d >= (uint64_t)level->type->array.length)
+				ERROR(T0->pos, "Array designator is outside of %s.", dbg_type(level->type));
 
-			if (designator_size > 1) {
-				pass_designators = designators + 1;
-				pass_n = designator_size - 1;
+			level->idx = c->uint_d;
+		} else {
+			TEXPECT(T_DOT);
+			int n = 0, *indices = NULL;
+			if (level->type->type != TY_STRUCT ||
+				!type_search_member(level->type, T0->str, &n, &indices))
+				ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+
+			TEXPECT(T_IDENT);
+
+			level->idx = indices[n - 1];
+			for (int i = n - 2; i >= 0; i--) {
+				struct type *child_type = type_select(level->type, level->idx);
+				struct initializer *child = initializer_add_entry(level->init, level->type, level->idx);
+				level->idx++;
+				level = initializer_path_push(path, child_type, child, indices[i]);
 			}
 		}
-
-		struct type *child_type = type_select(*type, idx);
-		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-		expr = NULL;
-
-		if (T0->type == T_LBRACK || T0->type == T_DOT)
-			continue;
-
-		idx++;
-
-		if (inside_brace && idx == max_members)
-			break;
-
-		if (!TACCEPT(T_COMMA))
-			break;
-
-		if (T0->type == T_RBRACE)
-			break;
 	}
 
-	if (!inside_brace)
-		TEXPECT(T_RBRACE);
+	TEXPECT(T_A);
 }
 
-// 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
+// Parse the initializer of the next sub-object. If it does not have
+// braces it might be for the first scalar inside of the sub-object.
+static void parse_next_initializer(struct initializer_path *path, int is_designated) {
+	struct expr *expr = NULL;
+
+	for (;; is_designated = 0) {
+		struct initializer_level *level = path->levels + path->size - 1;
+		int n_members = initializer_n_members(level->type);
 
-// This is tricky and very easy to get wrong.
-// See tests/initializers.c to see some examples.
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices) {
-	int current_idx = 0;
-	if (n > 0) {
-		current_idx = indices[0];
-		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
-			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
+		// Proceed with what comes after this aggregate when it is finished.
+		if (!is_designated && n_members != -1 && level->idx >= n_members) {
+			if (path->size == 1)
+				ERROR(T0->pos, "Excess element in initializer of %s.", dbg_type(level->type));
+			path->size--;
+			continue;
+		}
 
-		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
+		struct type *type = type_select(level->type, level->idx);
+		struct initializer *init = initializer_add_entry(level->init, level->type, level->idx);
+		level->idx++;
 
-		if (!TACCEPT(T_COMMA))
+		if (!expr && parse_complete_initializer(&type, init))
 			return;
 
-		if (T0->type == T_RBRACE)
+		if (!expr && !(type_is_aggregate(type) && is_lone_string()))
+			expr = parse_initializer_expression(type);
+
+		if (!type_is_aggregate(type) || (expr && type_remove_qualifications(expr->data_type) == type_remove_qualifications(type))) {
+			initializer_set_expression(init, type, expr);
 			return;
+		}
 
-		parse_brace_initializer(type, init, current_idx + 1, 1, expr);
-		return;
+		initializer_path_push(path, type, init, 0);
 	}
+}
 
-	int is_aggregate = type_is_aggregate(*type);
+static void parse_brace_initializer(struct type **type, struct initializer *init) {
+	struct initializer_path path = { 0 };
 
-	int is_str = 0, is_brace = 0;
-	struct token string_token = { 0 };
+	TEXPECT(T_LBRACE);
 
-	if (!expr && is_scalar(*type)) {
-		int has_braces = TACCEPT(T_LBRACE);
+	*init = (struct initializer) { .type = INIT_BRACE };
+	initializer_path_push(&path, *type, init, 0);
 
-		expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
+	while (T0->type != T_RBRACE) {
+		int is_designated = T0->type == T_LBRACK || T0->type == T_DOT;
+		if (is_designated)
+			parse_designators(&path);
 
-		if (has_braces)
-			TEXPECT(T_RBRACE);
-	}
+		parse_next_initializer(&path, is_designated);
 
-	if (!expr) {
-		is_str = 1;
-		if (T0->type == T_LBRACE && is_string_type(T1->type) && T2->type == T_RBRACE)
-			string_token = *T1;
-		else if (is_string_type(T0->type))
-			string_token = *T0;
-		else
-			is_str = 0;
-	}
-
-	if (!expr && !is_str && T0->type == T_LBRACE)
-		is_brace = 1;
-
-	if (!is_str && !is_brace && !expr) {
-		expr = parse_assignment_expression();
-	}
-
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
-		!is_str && expr->data_type != *type) {
-		// TODO: This seems a bit hacky.
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-		return;
+		if (!TACCEPT(T_COMMA))
+			break;
 	}
 
-	if (is_str && match_string(type, init, string_token)) {
-	} else if (expr) {
-		if (is_aggregate && expr->data_type != *type) {
-			parse_initializer_recursive(type, init, expr, 1, -1, NULL);
-		} else {
-			init->type = INIT_EXPRESSION;
-			init->expr = expression_cast(expr, *type);
-		}
-	} else if (T0->type == T_LBRACE && is_aggregate) {
-		parse_brace_initializer(type, init, 0, 0, NULL);
-	} else if (is_str && is_aggregate) {
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
-	}
+	TEXPECT(T_RBRACE);
+	free(path.levels);
 
 	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-		int max_index = 0;
-		switch (init->type) {
-		case INIT_BRACE: max_index = init->brace.size; break;
-		case INIT_STRING: NOTIMP();
-		default:
-			ERROR(T0->pos, "Expected incomplete array to be completed in initialzier.");
-		}
-
 		struct type complete_array_params = {
 			.type = TY_ARRAY,
-			.array.length = max_index,
+			.array.length = init->brace.size,
 			.n = 1
 		};
 
-		struct type *ntype = type_create(&complete_array_params, (*type)->children);
-		*type = ntype;
+		*type = type_create(&complete_array_params, (*type)->children);
 	}
 }
 
+// Parse an initializer with braces, or the string of an array. Returns false if there is none.
+static int parse_complete_initializer(struct type **type, struct initializer *init) {
+	if (match_string(type, init))
+		return 1;
+
+	if (T0->type != T_LBRACE)
+		return 0;
+
+	if (type_is_aggregate(*type)) {
+		parse_brace_initializer(type, init);
+	} else {
+		TEXPECT(T_LBRACE);
+		initializer_set_expression(init, *type, parse_initializer_expression(*type));
+		TACCEPT(T_COMMA);
+		TEXPECT(T_RBRACE);
+	}
+
+	return 1;
+}
+
 struct initializer parse_initializer(struct type **type) {
 	struct initializer ret = { 0 };
-	parse_initializer_recursive(type, &ret, NULL, 0, -1, NULL);
+
+	if (!parse_complete_initializer(type, &ret)) {
+		struct expr *expr = parse_initializer_expression(*type);
+
+		if ((*type)->type == TY_ARRAY || (*type)->type == TY_INCOMPLETE_ARRAY)
+			ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
+
+		initializer_set_expression(&ret, *type, expr);
+	}
+
 	return ret;
 }
 
-- 
2.43.0


From 80ab7a06e7735c11b40e014566348b4e4b8670a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 33/66] fix: keep hide sets sorted in the order their union and
 intersection assume

property=C15
---
 src/preprocessor/string_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/string_set.c b/src/preprocessor/string_set.c
index a0dbc58..dcbc22c 100644
--- a/src/preprocessor/string_set.c
+++ b/src/preprocessor/string_set.c
@@ -81,7 +81,7 @@ void string_set_insert(struct string_set *a, char *str) {
 
 	int s = 0, cmp = 0;
 	for (; s < a->size; s++) {
-		if ((cmp = strcmp(a->strings[s], str)) <= 0)
+		if ((cmp = strcmp(a->strings[s], str)) >= 0)
 			break;
 	}
 
-- 
2.43.0


From 51de186939a3abbcdc6f4034f2b9dfc749764a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 34/66] fix: substitute macro arguments, # and ## as C17 6.10.3
 defines

Concatenation now handles every pair of tokens and empty arguments, # is an
ordinary token in object-like macros and keeps the spelling of literals,
arguments that are never terminated are diagnosed.

property=C15
---
 src/preprocessor/macro_expander.c | 374 ++++++++++++++----------------
 1 file changed, 178 insertions(+), 196 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..762373f 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -98,6 +98,10 @@ static int get_param(struct define *def, struct token tok) {
 	if (!def->func || tok.type != T_IDENT)
 		return -1;
 
+	// The variable arguments come after the named ones.
+	if (def->vararg && sv_string_cmp(tok.str, "__VA_ARGS__"))
+		return def->par.size;
+
 	return token_list_index_of(&def->par, tok);
 }
 
@@ -107,67 +111,30 @@ void define_string(char *name, char *value) {
 	define_map_add(def);
 }
 
-// Hopefully sufficiant table for
-// combining two token types to
-// get another. The strings are simply
-// concatenated in all these cases.
-ttype paste_table[][3] = {
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_IDENT, T_NUM, T_IDENT},
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_LSHIFT, T_A, T_LSHIFTA},
-	{T_RSHIFT, T_A, T_RSHIFTA},
-	{T_NUM, T_NUM, T_NUM},
-	{T_NUM, T_IDENT, T_NUM},
-	{T_ADD, T_ADD, T_INC},
-	{T_ADD, T_A, T_ADDA},
-	{T_SUB, T_SUB, T_DEC},
-	{T_SUB, T_G, T_ARROW},
-	{T_SUB, T_A, T_SUBA},
-	{T_DIV, T_A, T_DIVA},
-	{T_MOD, T_A, T_MODA},
-	{T_G, T_GEQ, T_RSHIFTA},
-	{T_G, T_G, T_RSHIFT},
-	{T_G, T_A, T_GEQ},
-	{T_L, T_LEQ, T_LSHIFTA},
-	{T_L, T_L, T_LSHIFT},
-	{T_L, T_A, T_LEQ},
-	{T_NOT, T_A, T_NEQ},
-	{T_BOR, T_BOR, T_OR},
-	{T_BOR, T_A, T_BORA},
-	{T_XOR, T_A, T_XORA},
-	{T_A, T_A, T_EQ},
-	{T_STAR, T_A, T_MULA},
-	{T_AMP, T_A, T_BANDA},
-	{T_AMP, T_AMP, T_AND},
-	{PP_HASH, PP_HASH, PP_HHASH}, // This is just stupid...
-};
+// Concatenates the spellings of lhs and rhs, the result has to be a single token.
+static struct token glue(struct token lhs, struct token rhs) {
+	char *spelling = allocate_printf("%.*s%.*s", lhs.str.len, lhs.str.str,
+									 rhs.str.len, rhs.str.str);
+	struct token_list tl = tokenize_input(spelling, lhs.pos.path);
 
-static struct token glue(struct token a, struct token b) {
-	struct token ret = {
-		.whitespace = b.whitespace, .first_of_line = b.first_of_line,
-		.whitespace_after = a.whitespace_after, .first_of_line_after = a.first_of_line_after
-	};
-	for (unsigned i = 0; i < sizeof paste_table / sizeof *paste_table; i++)
-		if (paste_table[i][1] == a.type && paste_table[i][0] == b.type)
-			ret.type = paste_table[i][2];
-	if (!ret.type)
-		ERROR(a.pos, "Invalid paste of %.*s and %.*s", b.str.len, b.str.str, a.str.len, a.str.str);
+	if (tl.size != 1 || tl.list[0].str.len != lhs.str.len + rhs.str.len)
+		ERROR(lhs.pos, "Invalid paste of %.*s and %.*s", lhs.str.len, lhs.str.str, rhs.str.len, rhs.str.str);
+
+	struct token ret = lhs;
+	ret.type = tl.list[0].type;
+	ret.str = tl.list[0].str;
+	ret.hs = string_set_intersection(lhs.hs, rhs.hs);
 
-	ret.str = sv_from_str(allocate_printf("%s%s", sv_to_str(b.str), sv_to_str(a.str))); // TODO: This can be done better.
-	ret.hs = string_set_intersection(a.hs, b.hs);
-	ret.pos = a.pos;
+	token_list_free(&tl);
 
 	return ret;
 }
 
 static size_t stringify_size, stringify_cap;
 static char *stringify_buffer;
-static int stringify_whitespace;
 
 static void stringify_start(void) {
 	stringify_size = 0;
-	stringify_whitespace = 0;
 	ADD_ELEMENT(stringify_size, stringify_cap, stringify_buffer) = '\"';
 }
 
@@ -185,62 +152,50 @@ static struct string_view stringify_end(void) {
 }
 
 static void stringify_add(struct token *t, int start) {
-	if (!start && (t->whitespace || stringify_whitespace))
+	if (!start && t->whitespace)
 		stringify_add_char(' ');
-	stringify_whitespace = t->whitespace_after;
-	const char *str = NULL;
-	switch (t->type) {
-	case T_STRING:
-	case T_CHARACTER_CONSTANT:
-		for (int i = 0; i < t->str.len; i++) {
-			char escape_seq[5];
-			character_to_escape_sequence(t->str.str[i], escape_seq, 1);
-			for (int j = 0; escape_seq[j]; j++)
-				stringify_add_char(escape_seq[j]);
-		}
-		break;
-
-#define KEY(A, B)
-#define X(A, B)
-#define SYM(TOKEN, STR) case TOKEN: str = STR; break;
-		#include "tokens.h"
-#undef KEY
-#undef X
-#undef SYM
-
-	case PP_HASH:
-	case PP_DIRECTIVE:
-		str = "#";
-		break;
-
-	case PP_HHASH:
-		str = "##";
-		break;
-
-	default:
-		for (int i = 0; i < t->str.len; i++)
-			stringify_add_char(t->str.str[i]);
-	}
 
-	if (str) {
-		for (int i = 0; str[i]; i++)
-			stringify_add_char(str[i]);
+	int is_literal = t->type == T_STRING || t->type == T_CHARACTER_CONSTANT;
+
+	for (int i = 0; i < t->str.len; i++) {
+		if (is_literal && (t->str.str[i] == '\\' || t->str.str[i] == '"'))
+			stringify_add_char('\\');
+		stringify_add_char(t->str.str[i]);
 	}
 }
 
+static struct token stringify(struct token t, struct token_list tl) {
+	stringify_start();
+
+	for (int i = 0; i < tl.size; i++)
+		stringify_add(tl.list + i, i == 0);
+
+	t.type = T_STRING;
+	t.str = stringify_end();
+	return t;
+}
+
 static int builtin_macros(struct token *t) {
 	// These are only single tokens.
 	// Remember to keep whitespace.
 	int whitespace = t->whitespace, whitespace_after = t->whitespace_after;
+	int first_of_line = t->first_of_line;
 	if (sv_string_cmp(t->str, "__LINE__")) {
 		*t = (struct token) { .type = T_NUM, .str = sv_from_str(allocate_printf("%d", t->pos.line)), .pos = t->pos };
 	} else if (sv_string_cmp(t->str, "__FILE__")) {
-		*t = (struct token) { .type = T_STRING, .str = sv_from_str(allocate_printf("\"%s\"", t->pos.path)), .pos = t->pos };
+		stringify_start();
+		for (const char *c = t->pos.path; *c; c++) {
+			if (*c == '\\' || *c == '"')
+				stringify_add_char('\\');
+			stringify_add_char(*c);
+		}
+		*t = (struct token) { .type = T_STRING, .str = stringify_end(), .pos = t->pos };
 	} else
 		return 0;
 
 	t->whitespace = whitespace;
 	t->whitespace_after = whitespace_after;
+	t->first_of_line = first_of_line;
 	return 1;
 }
 
@@ -291,6 +246,9 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	struct token t;
 	do {
 		t = input_buffer_take(input);
+		if (t.type == T_EOI)
+			ERROR(t.pos, "Unterminated argument list of macro");
+
 		if(t.type == T_LPAR) {
 			depth++;
 		} else if(t.type == T_RPAR) {
@@ -318,47 +276,40 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	return t.type == T_RPAR;
 }
 
-static void expand_argument(struct token origin, struct token_list tl, int *concat_with_prev, int concat, int stringify, int input) {
-	int start_it = tl.size - 1;
-
-	if (*concat_with_prev && tl.size) {
-		struct token *end = input_buffer_top(input);
-		*end = glue(*end, tl.list[start_it--]);
+// Parameters replaced by no tokens at all next to ## are represented
+// by placemarkers (tokens of type T_NONE).
+static void substitute_add(struct token_list *out, struct token t, int paste) {
+	struct token *last = out->size ? &out->list[out->size - 1] : NULL;
+
+	if (!paste || !last) {
+		token_list_add(out, t);
+	} else if (last->type == T_NONE) {
+		t.whitespace = last->whitespace;
+		*last = t;
+	} else if (t.type != T_NONE) {
+		*last = glue(*last, t);
 	}
+}
 
-	int run_expand_again = 0;
-	if (!(concat || stringify)) {
-		run_expand_again = 1;
-		struct token t = { .type = T_EOI };
-		input_buffer_push(&t);
-	}
-
-	for(int i = start_it; i >= 0; i--) {
-		struct token t = tl.list[i];
-		if (i == 0)
-			t.whitespace = t.whitespace || origin.whitespace;
-		if (i == start_it)
-			t.whitespace_after = t.whitespace_after || origin.whitespace_after;
-		input_buffer_push(&t);
-	}
-
-	if (run_expand_again) {
-		size_t output_pos = output_buffer.size;
-		expand_buffer(input, 0, NULL);
-
-		for (int i = output_buffer.size - 1; i >= (int)output_pos; i--) {
-			input_buffer_push(&output_buffer.tokens[i]);
-		}
-		output_buffer.size = output_pos;
-		// Expand argument again.
-	}
+static struct token_list copy_token_list(struct token_list *tl) {
+	struct token_list ret = { 0 };
+	for (int i = 0; i < tl->size; i++)
+		token_list_add(&ret, tl->list[i]);
+	return ret;
 }
 
 static void subs_buffer(struct token origin, struct define *def, struct string_set *hs, struct position new_pos, int input) {
+	// The variable arguments are stored after the named ones.
 	int n_args = def->par.size;
-	struct token_list *arguments = cc_malloc(sizeof *arguments * n_args);
+	struct token_list *arguments = cc_malloc(sizeof *arguments * (n_args + 1));
+	struct token_list *expanded = cc_malloc(sizeof *expanded * (n_args + 1));
+	int *is_expanded = cc_malloc(sizeof *is_expanded * (n_args + 1));
+
+	for (int i = 0; i < n_args + 1; i++) {
+		arguments[i] = expanded[i] = (struct token_list) { 0 };
+		is_expanded[i] = 0;
+	}
 
-	struct token_list vararg = {0};
 	int vararg_included = 0;
 
 	int whitespace_after = origin.whitespace_after; // This can change if function macro.
@@ -379,7 +330,7 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 		if (def->vararg && !finished) {
 			vararg_included = 1;
-			if (!input_buffer_parse_argument(&vararg, 1, input)) {
+			if (!input_buffer_parse_argument(&arguments[n_args], 1, input)) {
 				ERROR(lpar.pos, "__VA_ARGS__ Not end of input");
 			}
 		}
@@ -394,94 +345,125 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 	string_set_insert(hs, sv_to_str(def->name));
 
-	size_t input_start = input_buffer.size;
-	int concat_with_prev = 0;
-	for(int i = def->def.size - 1; i >= 0; i--) {
+	struct token_list out = { 0 };
+	int paste = 0, pending_whitespace = 0;
+	for (int i = 0; i < def->def.size; i++) {
 		struct token t = def->def.list[i];
+		const int whitespace = t.whitespace || pending_whitespace;
 
-		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
-		const int stringify = (i != 0) && def->def.list[i - 1].type == PP_HASH;
-
-		if (t.type == PP_HHASH)
-			ERROR(t.pos, "Concat token at edge of macro expansion.");
-
-		if (sv_string_cmp(t.str, "__VA_ARGS__")) {
-			const int va_args_paste = concat && i - 2 >= 0 &&
-				def->def.list[i - 2].type == T_COMMA;
-
-			if (va_args_paste && !vararg_included) {
-				i--; // There is an additional i-- at the end of the loop.
-			} else if (stringify) {
-				struct token_list tl = vararg;
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if (vararg_included) {
-				expand_argument(t, vararg, &concat_with_prev, concat, stringify, input);
-				
-				if (vararg.size)
-					concat_with_prev = !va_args_paste && concat;
-			}
+		if (t.type == PP_HHASH) {
+			if (i == 0 || i == def->def.size - 1)
+				ERROR(t.pos, "Concat token at edge of macro expansion.");
+			paste = 1;
+			continue;
+		}
+
+		const int is_stringify = def->func && t.type == PP_HASH;
+		if (is_stringify) {
+			if (i == def->def.size - 1)
+				ERROR(t.pos, "# Should be followed by macro parameter");
+			t = def->def.list[++i];
+		}
+
+		const int next_is_paste = i + 1 < def->def.size && def->def.list[i + 1].type == PP_HHASH;
+
+		const int idx = get_param(def, t);
+		t.pos = new_pos;
+		t.whitespace = whitespace;
+		pending_whitespace = 0;
+
+		if (is_stringify) {
+			if (idx < 0)
+				ERROR(t.pos, "# Should be followed by macro parameter");
+
+			substitute_add(&out, stringify(t, arguments[idx]), paste);
+		} else if (idx < 0) {
+			substitute_add(&out, t, paste);
 		} else {
-			const int idx = get_param(def, t);
-			if (idx >= 0 && stringify) {
-				struct token_list tl = arguments[idx];
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if(idx >= 0) {
-				expand_argument(t, arguments[idx], &concat_with_prev, concat, stringify, input);
-
-				if (arguments[idx].size)
-					concat_with_prev = concat;
-			} else {
-				if (concat_with_prev) {
-					struct token *end = input_buffer_top(input);
-					*end = glue(*end, t);
-					concat_with_prev = 0;
-				} else if (stringify) {
-					ERROR(t.pos, "# Should be followed by macro parameter");
-				} else {
-					t.pos = new_pos;
-					input_buffer_push(&t);
+			if (idx == n_args && paste && out.size &&
+				def->def.list[i - 2].type == T_COMMA) {
+				// GNU extension, the comma in ", ## __VA_ARGS__" is removed
+				// if there are no variable arguments.
+				paste = 0;
+				if (!vararg_included) {
+					out.size--;
+					continue;
 				}
+			}
 
-				if (concat)
-					concat_with_prev = 1;
+			struct token_list tl = arguments[idx];
+			if (!paste && !next_is_paste) {
+				if (!is_expanded[idx]) {
+					expanded[idx] = copy_token_list(&arguments[idx]);
+					expand_token_list(&expanded[idx]);
+					is_expanded[idx] = 1;
+				}
+				tl = expanded[idx];
+			}
+
+			for (int j = 0; j < tl.size; j++) {
+				struct token arg_token = tl.list[j];
+				if (j == 0)
+					arg_token.whitespace = whitespace;
+				substitute_add(&out, arg_token, j == 0 && paste);
+			}
+
+			if (tl.size == 0) {
+				if (paste || next_is_paste) {
+					t.type = T_NONE;
+					substitute_add(&out, t, paste);
+				} else {
+					pending_whitespace = whitespace;
+				}
 			}
 		}
 
-		if (concat || stringify)
-			i--;
+		paste = 0;
 	}
 
-	for(int i = 0; i < n_args; i++) {
+	for(int i = 0; i < n_args + 1; i++) {
 		token_list_free(&arguments[i]);
+		token_list_free(&expanded[i]);
+	}
+
+	free(arguments);
+	free(expanded);
+	free(is_expanded);
+
+	// Remove placemarkers, moving whitespace to the token that follows.
+	struct token_list result = { 0 };
+	int preceding_whitespace = origin.whitespace;
+	for (int i = 0; i < out.size; i++) {
+		struct token t = out.list[i];
+		preceding_whitespace = preceding_whitespace || t.whitespace;
+		if (t.type == T_NONE)
+			continue;
+
+		t.hs = string_set_union(*hs, t.hs);
+		t.whitespace = preceding_whitespace;
+		t.first_of_line = result.size == 0 && origin.first_of_line;
+		if (result.size)
+			result.list[result.size - 1].whitespace_after = t.whitespace;
+		token_list_add(&result, t);
+
+		preceding_whitespace = 0;
 	}
 
-	for(unsigned i = input_start; i < input_buffer.size; i++) {
-		struct token *tok = &input_buffer.tokens[i];
-		tok->hs = string_set_union(*hs, tok->hs);
+	if (result.size) {
+		struct token *last = &result.list[result.size - 1];
+		last->whitespace_after = whitespace_after || preceding_whitespace || pending_whitespace;
 
-		if (i == input_start)
-			tok->whitespace_after = tok->whitespace_after || whitespace_after;
-		if (i == input_buffer.size - 1)
-			tok->whitespace = tok->whitespace || origin.whitespace;
+		for (int i = result.size - 1; i >= 0; i--)
+			input_buffer_push(&result.list[i]);
+	} else {
+		struct token *top = input_buffer_top(input);
+		top->whitespace = 1;
+		if (origin.first_of_line)
+			top->first_of_line = 1;
 	}
 
-	free(arguments);
+	token_list_free(&out);
+	token_list_free(&result);
 }
 
 // Expands until empty token.
-- 
2.43.0


From 641725c690cb6281722644637517562f2485cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 35/66] fix: -E prints preprocessing tokens as they were
 spelled and keeps them apart

property=C19
---
 src/main.c                      | 16 +-----------
 src/preprocessor/preprocessor.c | 46 +++++++++++++++++++++++++++++++++
 src/preprocessor/preprocessor.h |  1 +
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2c648e5..122b34f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -258,21 +258,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
 
-	preprocessor_init(path);
-
-	while (T0->type != T_EOI) {
-		if (T0->first_of_line)
-			printf("\n");
-		else if (T0->whitespace)
-			printf(" ");
-
-		printf("%s", dbg_token(T0));
-
-		if (T0->whitespace_after)
-			printf(" ");
-
-		t_next();
-	}
+	preprocessor_print(path, stdout);
 
 	preprocessor_reset();
 	ir_reset();
diff --git a/src/preprocessor/preprocessor.c b/src/preprocessor/preprocessor.c
index 3153578..4e9942c 100644
--- a/src/preprocessor/preprocessor.c
+++ b/src/preprocessor/preprocessor.c
@@ -34,6 +34,52 @@ void preprocessor_init(const char *path) {
 		t_next();
 }
 
+// Would the spellings of a and b form other tokens if
+// there was nothing in between?
+static int needs_separation(struct token *a, struct token *b) {
+	char last = a->str.str[a->str.len - 1], first = b->str.str[0];
+
+	switch (a->type) {
+	case T_IDENT:
+		return b->type == T_IDENT || b->type == T_NUM ||
+			b->type == T_STRING || b->type == T_CHARACTER_CONSTANT;
+	case T_NUM:
+		return b->type == T_IDENT || b->type == T_NUM ||
+			b->type == T_STRING || b->type == T_CHARACTER_CONSTANT ||
+			first == '.' || first == '+' || first == '-';
+	case T_STRING:
+	case T_CHARACTER_CONSTANT:
+		return 0;
+	default:
+		if (last == '.')
+			return first == '.' || b->type == T_NUM;
+		return first == '=' || first == last || first == '>' ||
+			(last == '/' && first == '*');
+	}
+}
+
+void preprocessor_print(const char *path, FILE *fp) {
+	directiver_push_input(path, 0);
+
+	struct token prev = { 0 };
+	int printed_space = 1;
+	for (struct token t = expander_next(); t.type != T_EOI; t = expander_next()) {
+		// A # that is not part of a directive must not start a line.
+		if (t.first_of_line && t.type != PP_HASH)
+			fprintf(fp, "\n");
+		else if (t.whitespace || (!printed_space && needs_separation(&prev, &t)))
+			fprintf(fp, " ");
+
+		fprintf(fp, "%.*s", t.str.len, t.str.str);
+
+		printed_space = t.whitespace_after;
+		if (printed_space)
+			fprintf(fp, " ");
+
+		prev = t;
+	}
+}
+
 struct token *t_peek(int n) {
 	assert(n <= 2);
 	return &ts.buffer[n];
diff --git a/src/preprocessor/preprocessor.h b/src/preprocessor/preprocessor.h
index ba9c439..93bbb0e 100644
--- a/src/preprocessor/preprocessor.h
+++ b/src/preprocessor/preprocessor.h
@@ -55,6 +55,7 @@ void t_push(struct token t);
 struct token *t_peek(int n);
 
 void preprocessor_init(const char *path);
+void preprocessor_print(const char *path, FILE *fp); // Used for the -E flag.
 void preprocessor_reset(void);
 
 void define_string(char *name, char *value); // Defined in macro_expander.c
-- 
2.43.0


From f27d86af52519156d215c1dbac13ef307ae53b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:56 +0000
Subject: [PATCH 36/66] fix: encode characters outside the BMP as surrogate
 pairs in char16_t strings

property=C17
---
 src/preprocessor/string_concat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..c8750ea 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -87,6 +87,12 @@ static int escape_char_to_buffer(struct string_view *input,
 		buffer_write((character >> 24) & 0xff);
 		break;
 	case STRING_U_SMALL:
+		if (character > 0xffff) { // Encode as a surrogate pair.
+			uint32_t high = 0xd800 + ((character - 0x10000) >> 10);
+			buffer_write(high & 0xff);
+			buffer_write((high >> 8) & 0xff);
+			character = 0xdc00 + ((character - 0x10000) & 0x3ff);
+		}
 		buffer_write(character & 0xff);
 		buffer_write((character >> 8) & 0xff);
 		break;
-- 
2.43.0


From 1bbef453791a7fe282bdc823f88c3cf671193abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:56 +0000
Subject: [PATCH 37/66] fix: tokenize comments, splices, universal character
 names and stray characters as C17 defines

property=C17
---
 src/preprocessor/tokenizer.c | 100 ++++++++++++++++++++++++-----------
 src/preprocessor/tokens.h    |   1 +
 2 files changed, 71 insertions(+), 30 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..bfb7947 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
@@ -65,6 +65,8 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	for (write = read = ret_str; *read; read++) {
 		if (read[0] == '\\' && read[1] == '\n')
 			read += 1;
+		else if (read[0] == '\\' && read[1] == '\r' && read[2] == '\n')
+			read += 2;
 		else
 			*write++ = *read;
 	}
@@ -72,7 +74,10 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 
 	// Replace \Uxxxxxxxx and \uxxxx with decoded unicode.
 	for (write = read = ret_str; *read; read++) {
-		if (read[0] == '\\' && (read[1] == 'u' || read[1] == 'U')) {
+		if (read[0] == '\\' && read[1] == '\\') {
+			*write++ = *read++;
+			*write++ = *read;
+		} else if (read[0] == '\\' && (read[1] == 'u' || read[1] == 'U')) {
 			int n_digits = *++read == 'u' ? 4 : 8;
 
 			uint32_t codepoint = 0;
@@ -103,24 +108,19 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	return sv_from_str(ret_str);
 }
 
-static struct string_view remove_digit_separator(const char *initial_pos) {
-	size_t len = str - initial_pos - 1;
-	char *ret_str = cc_malloc(len + 1);
-	memcpy(ret_str, initial_pos, len);
-	ret_str[len] = '\0';
+static struct string_view remove_digit_separator(struct string_view number) {
+	char *ret_str = cc_malloc(number.len + 1);
 
 	char *write = ret_str;
-	// Remove '\\n':
-	for (char *read = ret_str; *read; read++) {
-		if (read[0] != '\'')
-			*write++ = *read;
+	for (int i = 0; i < number.len; i++) {
+		if (number.str[i] != '\'')
+			*write++ = number.str[i];
 	}
 	*write = '\0';
 
 	return sv_from_str(ret_str);
 }
 
-
 static void parse_number(void) {
 	for (;;) {
 		if (c == EQ_EXPONENT) {
@@ -145,7 +145,8 @@ static void parse_number(void) {
 	}
 }
 
-static void parse_string_like(char end_char) {
+// Returns false if the line ends before the literal does.
+static int parse_string_like(char end_char) {
 	while (c != '\n' && c != end_char && c != EQ_NULL) {
 		if (c == '\\') {
 			next_char();
@@ -153,15 +154,19 @@ static void parse_string_like(char end_char) {
 				next_char();
 				needs_escape_sequences_removed = 1;
 			}
+
+			if (c == EQ_NULL)
+				break;
 		}
 
 		next_char();
 	}
 
 	if (c != end_char)
-		ERROR(pos, "Invalid string");
+		return 0;
 
 	next_char();
+	return 1;
 }
 
 static void parse_identifier(void) {
@@ -170,10 +175,18 @@ static void parse_identifier(void) {
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
 		} else if (c == '\\') {
+			const char saved_c = c, *saved_str = str;
+			const struct position saved_pos = pos;
+
 			next_char();
 			if (c == 'u' || c == 'U') {
 				next_char();
 				needs_escape_sequences_removed = 1;
+			} else {
+				c = saved_c;
+				str = saved_str;
+				pos = saved_pos;
+				break;
 			}
 		} else {
 			break;
@@ -217,8 +230,8 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
-				next_char();
 				if (c == '*') {
 					next_char();
 					if (c == '/') {
@@ -227,6 +240,8 @@ restart:
 					}
 				} else if (c == EQ_NULL) {
 					ERROR(pos, "Comment reached end of file");
+				} else {
+					next_char();
 				}
 			}
 			next.whitespace = 1;
@@ -244,7 +259,8 @@ restart:
 			switch (c) {
 			case '"':
 				TYPE(T_STRING);
-				parse_string_like('"');
+				if (!parse_string_like('"'))
+					next.type = PP_OTHER;
 				break;
 
 			default:
@@ -256,12 +272,14 @@ restart:
 
 		case '"':
 			TYPE(T_STRING);
-			parse_string_like('"');
+			if (!parse_string_like('"'))
+				next.type = PP_OTHER;
 			break;
 
 		case '\'':
 			TYPE(T_CHARACTER_CONSTANT);
-			parse_string_like('\'');
+			if (!parse_string_like('\''))
+				next.type = PP_OTHER;
 			break;
 
 		default:
@@ -277,12 +295,14 @@ restart:
 		switch (c) {
 		case '"':
 			TYPE(T_STRING);
-			parse_string_like('"');
+			if (!parse_string_like('"'))
+				next.type = PP_OTHER;
 			break;
 
 		case '\'':
 			TYPE(T_CHARACTER_CONSTANT);
-			parse_string_like('\'');
+			if (!parse_string_like('\''))
+				next.type = PP_OTHER;
 			break;
 
 		default: parse_identifier(); break;
@@ -291,12 +311,14 @@ restart:
 
 	case '"':
 		TYPE(T_STRING);
-		parse_string_like('"');
+		if (!parse_string_like('"'))
+			next.type = PP_OTHER;
 		break;
 
 	case '\'':
 		TYPE(T_CHARACTER_CONSTANT);
-		parse_string_like('\'');
+		if (!parse_string_like('\''))
+			next.type = PP_OTHER;
 		break;
 
 	case EQ_EXPONENT:
@@ -322,12 +344,20 @@ restart:
 			parse_number();
 			break;
 
-		case '.':
+		case '.': {
+			// Two dots are two tokens.
+			const char saved_c = c, *saved_str = str;
+			const struct position saved_pos = pos;
+
 			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
-			break;
+			if (c == '.') {
+				TYPE(T_ELLIPSIS);
+			} else {
+				c = saved_c;
+				str = saved_str;
+				pos = saved_pos;
+			}
+		} break;
 		}
 		break;
 
@@ -347,7 +377,8 @@ restart:
 	case '<':
 		if (*is_header) {
 			TYPE(PP_HEADER_NAME_H);
-			parse_string_like('>');
+			if (!parse_string_like('>'))
+				next.type = PP_OTHER;
 		} else {
 			TYPE(T_L);
 			switch (c) {
@@ -462,7 +493,16 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	case '\\':
+		TYPE(PP_OTHER);
+		if (c == 'u' || c == 'U') {
+			next.type = T_IDENT;
+			needs_escape_sequences_removed = 1;
+			parse_identifier();
+		}
+		break;
+
+	default: TYPE(PP_OTHER);
 	}
 
 	next.str = (struct string_view){
@@ -474,7 +514,7 @@ restart:
 		next.str = remove_escape_sequences(initial_pos);
 
 	if (needs_digit_separator_removed)
-		next.str = remove_digit_separator(initial_pos);
+		next.str = remove_digit_separator(next.str);
 
 	if (next.type == T_IDENT && *is_directive) {
 		*is_header = sv_string_cmp(next.str, "include");
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..ba9ddbe 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Invalid token")
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From 93d88b69d221c744bb95b015ac1a41ee901894f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 38/66] fix: process conditionals, #line, #include of macros
 and push_macro as defined

Controlling expressions use intmax_t/uintmax_t (~, !, ?:, shifts, unsuffixed
constants and wide characters), __LINE__ and __FILE__ are defined, misplaced
or unterminated conditionals are diagnosed, #line is local to a file.

property=C16
---
 src/preprocessor/directives.c    | 567 ++++++++++++++++++-------------
 src/preprocessor/string_concat.c |  11 +-
 src/preprocessor/string_concat.h |   2 +-
 3 files changed, 350 insertions(+), 230 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..8ca7950 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -18,20 +18,33 @@ struct tokenized_file {
 
 	const char *path;
 	struct tokenized_file *parent;
+
+	// Set by #line.
+	const char *new_path;
+	int line_diff;
+
+	// Number of conditionals open where the file was included.
+	int cond_depth, depth;
 };
 
 static struct tokenized_file *current_file;
 
-static const char *new_path = NULL;
-static int line_diff = 0;
-
-struct macro_stack {
-	size_t size, cap;
-	struct define *defines;
-};
+// The conditionals that are open. Groups are processed if state is 1, 0 means
+// that no group has been selected yet, and -1 that the rest are to be skipped.
+static int cond_stack_n, cond_stack_cap;
+static struct conditional {
+	int state, has_else;
+} *cond_stack;
 
+// Definitions saved by #pragma push_macro.
 static size_t macro_stack_size, macro_stack_cap;
-static struct macro_stack *macro_stacks;
+static struct saved_macro {
+	struct string_view name;
+	int is_defined;
+	struct define define;
+} *macro_stack;
+
+#define MAX_INCLUDE_DEPTH 200
 
 static int write_dependencies = 0;
 static size_t dep_size, dep_cap;
@@ -56,13 +69,15 @@ void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 
 // Resets all global state. Not very elegant.
 void directiver_reset(void) {
-	new_path = NULL;
-	line_diff = 0;
 	current_file = NULL;
 
+	cond_stack_n = cond_stack_cap = 0;
+	free(cond_stack);
+	cond_stack = NULL;
+
 	macro_stack_size = macro_stack_cap = 0;
-	free(macro_stacks);
-	macro_stacks = NULL;
+	free(macro_stack);
+	macro_stack = NULL;
 
 	for (unsigned i = 0; i < dep_size; i++)
 		free(deps[i]);
@@ -73,6 +88,11 @@ void directiver_reset(void) {
 
 void directiver_push_input(const char *path, int system) {
 	const char *parent_path = current_file ? current_file->path : ".";
+	int depth = current_file ? current_file->depth + 1 : 0;
+
+	if (depth > MAX_INCLUDE_DEPTH)
+		ERROR_NO_POS("#include of \"%s\" nested too deeply.", path);
+
 	struct input new_input = input_open(parent_path, path, system);
 
 	if (!new_input.path)
@@ -86,6 +106,8 @@ void directiver_push_input(const char *path, int system) {
 			.token_idx = 0,
 			.tokens = tokenize_input(new_input.contents, new_input.path),
 			.path = strdup(new_input.path),
+			.cond_depth = cond_stack_n,
+			.depth = depth,
 		});
 }
 
@@ -93,16 +115,23 @@ static struct token next(void);
 
 static struct token next_from_stack(void) {
 	if (current_file->token_idx == current_file->tokens.size) {
+		if (cond_stack_n > current_file->cond_depth)
+			ERROR_NO_POS("Unterminated conditional in %s.", current_file->path);
+
 		if (current_file->parent) {
 			token_list_free(&current_file->tokens);
 			current_file = current_file->parent;
 			return next();
 		}
 
-		return (struct token ) { .type = T_EOI };
+		return (struct token ) { .type = T_EOI, .first_of_line = 1, .pos.path = current_file->path };
 	}
 
-	return current_file->tokens.list[current_file->token_idx++];
+	struct token t = current_file->tokens.list[current_file->token_idx++];
+	t.pos.line += current_file->line_diff;
+	if (current_file->new_path)
+		t.pos.path = current_file->new_path;
+	return t;
 }
 
 static void push(struct token t) {
@@ -112,21 +141,33 @@ static void push(struct token t) {
 }
 
 static struct token next(void) {
-	struct token t;
-	if (current_file->pushed_idx) {
-		current_file->pushed_idx--;
-		t = current_file->pushed[current_file->pushed_idx];
-	} else {
-		t = next_from_stack();
-	}
-	t.pos.line += line_diff;
-	if (new_path)
-		t.pos.path = new_path;
-	return t;
+	if (current_file->pushed_idx)
+		return current_file->pushed[--current_file->pushed_idx];
+
+	return next_from_stack();
 }
 
-static void directiver_define(void) {
+static void skip_line(void) {
+	struct token t = next();
+	while (!t.first_of_line)
+		t = next();
+	push(t);
+}
+
+static struct token next_macro_name(struct token directive) {
 	struct token name = next();
+	if (name.first_of_line || name.type != T_IDENT || sv_string_cmp(name.str, "defined"))
+		ERROR(directive.pos, "Expected macro name in directive");
+	return name;
+}
+
+static int is_macro_defined(struct string_view name) {
+	return define_map_get(name) != NULL ||
+		sv_string_cmp(name, "__LINE__") || sv_string_cmp(name, "__FILE__");
+}
+
+static void directiver_define(struct token directive) {
+	struct token name = next_macro_name(directive);
 
 	struct define def = define_init(name.str);
 
@@ -135,6 +176,8 @@ static void directiver_define(void) {
 		int idx = 0;
 		do {
 			t = next();
+			if (t.first_of_line)
+				ERROR(name.pos, "Unterminated parameter list of macro");
 			if(idx == 0 && t.type == T_RPAR) {
 				def.func = 1;
 				break;
@@ -148,6 +191,8 @@ static void directiver_define(void) {
 				break;
 			}
 			EXPECT(&t, T_IDENT);
+			if (token_list_index_of(&def.par, t) != -1)
+				ERROR(t.pos, "Duplicate macro parameter \"%.*s\"", t.str.len, t.str.str);
 			define_add_par(&def, t);
 
 			t = next();
@@ -197,7 +242,7 @@ static struct result result_signed(intmax_t val) {
 	return (struct result) { .is_signed = 1, .i = val };
 }
 
-static struct result result_unsigned(intmax_t val) {
+static struct result result_unsigned(uintmax_t val) {
 	return (struct result) { .is_signed = 0, .u = val };
 }
 
@@ -213,9 +258,11 @@ void check_div_overflow(struct token *t,
 		ERROR(t->pos, "Division will overflow");
 }
 
-#define RESULT_UNARY(OP, EXPR) ((EXPR).is_signed				\
-								? result_signed(OP (EXPR).i)	\
-								: result_unsigned(OP (EXPR).u))
+// Arithmetic is performed on the unsigned representation, so that
+// signed overflow wraps around.
+#define RESULT_ARITH(OP, LHS, RHS) ((LHS).is_signed							\
+									? result_signed((LHS).u OP (RHS).u)		\
+									: result_unsigned((LHS).u OP (RHS).u))
 
 #define RESULT_BINARY(OP, LHS, RHS) ((LHS).is_signed					\
 									 ? result_signed((LHS).i OP (RHS).i) \
@@ -226,7 +273,40 @@ void check_div_overflow(struct token *t,
 										  ? result_signed((LHS).i OP (RHS).i) \
 										  : result_signed((LHS).u OP (RHS).u))
 
-// TODO: Ensure no UB. Don't allow operators to overflow.
+static struct result evaluate_shift(struct result lhs, struct result rhs, int left) {
+	// Shifts by a negative amount are shifts in the other direction.
+	if (rhs.is_signed && rhs.i < 0) {
+		rhs.u = -rhs.u;
+		left = !left;
+	}
+
+	uintmax_t sign = lhs.is_signed && lhs.i < 0 ? (uintmax_t)-1 : 0;
+	uintmax_t value;
+	if (rhs.u >= 64)
+		value = left ? 0 : sign;
+	else if (left)
+		value = lhs.u << rhs.u;
+	else
+		value = (lhs.u >> rhs.u) | (rhs.u ? sign << (64 - rhs.u) : 0);
+
+	return lhs.is_signed ? result_signed(value) : result_unsigned(value);
+}
+
+static struct result evaluate_number(struct token t) {
+	struct constant c = constant_from_string(t.str);
+	if (c.type != CONSTANT_TYPE || type_is_floating(c.data_type))
+		ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
+	if (!type_is_integer(c.data_type))
+		ERROR(t.pos, "Preprocessor variables must be of integer type.");
+
+	// All integer types have the same range as intmax_t or uintmax_t.
+	int is_unsigned = c.uint_d > INTMAX_MAX;
+	for (int i = 0; i < t.str.len; i++)
+		is_unsigned = is_unsigned || t.str.str[i] == 'u' || t.str.str[i] == 'U';
+
+	return is_unsigned ? result_unsigned(c.uint_d) : result_signed(c.uint_d);
+}
+
 static struct result evaluate_expression(int prec, int evaluate) {
 	struct result expr = result_signed(0);
 	struct token t = buffer_next();
@@ -234,29 +314,25 @@ static struct result evaluate_expression(int prec, int evaluate) {
 	if (t.type == T_ADD) {
 		expr = evaluate_expression(PREFIX_PREC, evaluate);
 	} else if (t.type == T_SUB) {
-		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(-, rhs);
+		expr = evaluate_expression(PREFIX_PREC, evaluate);
+		expr.u = -expr.u;
+	} else if (t.type == T_BNOT) {
+		expr = evaluate_expression(PREFIX_PREC, evaluate);
+		expr.u = ~expr.u;
 	} else if (t.type == T_NOT) {
-		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = evaluate_expression(PREFIX_PREC, evaluate);
+		expr = result_signed(result_is_zero(expr));
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
 		if (rpar.type != T_RPAR)
 			ERROR(rpar.pos, "Expected ), got %s", dbg_token_type(rpar.type));
 	} else if (t.type == T_NUM) {
-		struct constant c = constant_from_string(t.str);
-		assert(c.type == CONSTANT_TYPE);
-		if (type_is_floating(c.data_type))
-			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
-		if (!type_is_integer(c.data_type))
-			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
-			expr = result_signed(c.int_d);
-		else
-			expr = result_unsigned(c.uint_d);
+		expr = evaluate_number(t);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
-		expr = result_signed(escaped_character_constant_to_int(t));
+		int is_unsigned;
+		intmax_t value = escaped_character_constant_to_int(t, &is_unsigned);
+		expr = is_unsigned ? result_unsigned(value) : result_signed(value);
 	} else {
 		ERROR(t.pos, "Invalid token in preprocessor expression. %s", dbg_token(&t));
 	}
@@ -267,17 +343,23 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		int new_prec = precedence_get(t.type, 0);
 
 		if (t.type == T_QUEST) {
-			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
+			int condition = !result_is_zero(expr);
+			struct result mid = evaluate_expression(0, condition ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
-			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
-			expr = !result_is_zero(expr) ? mid : rhs;
+			if (colon.type != T_COLON)
+				ERROR(colon.pos, "Expected :, got %s", dbg_token_type(colon.type));
+			struct result rhs = evaluate_expression(new_prec, condition ? 0 : evaluate);
+			expr = condition ? mid : rhs;
+			expr.is_signed = mid.is_signed && rhs.is_signed;
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) && !result_is_zero(rhs));
 		} else if (t.type == T_OR) {
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) || !result_is_zero(rhs));
+		} else if (t.type == T_LSHIFT || t.type == T_RSHIFT) {
+			struct result rhs = evaluate_expression(new_prec, evaluate);
+			expr = evaluate_shift(expr, rhs, t.type == T_LSHIFT);
 		} else {
 			// Standard binary operator.
 			struct result rhs = evaluate_expression(new_prec, evaluate);
@@ -288,33 +370,35 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			else if (!rhs.is_signed && expr.is_signed)
 				expr = result_unsigned(expr.i);
 
-			if (evaluate) {
-				switch (t.type) {
-				case T_BOR: expr = RESULT_BINARY(|, expr, rhs); break;
-				case T_XOR: expr = RESULT_BINARY(^, expr, rhs); break;
-				case T_AMP: expr = RESULT_BINARY(&, expr, rhs); break;
-				case T_EQ: expr = RESULT_BINARY_COND(==, expr, rhs); break;
-				case T_NEQ: expr = RESULT_BINARY_COND(!=, expr, rhs); break;
-				case T_LEQ: expr = RESULT_BINARY_COND(<=, expr, rhs); break;
-				case T_GEQ: expr = RESULT_BINARY_COND(>=, expr, rhs); break;
-				case T_L: expr = RESULT_BINARY_COND(<, expr, rhs); break;
-				case T_G: expr = RESULT_BINARY_COND(>, expr, rhs); break;
-				case T_LSHIFT: expr = RESULT_BINARY(<<, expr, rhs); break;
-				case T_RSHIFT: expr = RESULT_BINARY(>>, expr, rhs); break;
-				case T_ADD: expr = RESULT_BINARY(+, expr, rhs); break;
-				case T_SUB: expr = RESULT_BINARY(-, expr, rhs); break;
-				case T_STAR: expr = RESULT_BINARY(*, expr, rhs); break;
-				case T_DIV:
+			switch (t.type) {
+			case T_BOR: expr = RESULT_BINARY(|, expr, rhs); break;
+			case T_XOR: expr = RESULT_BINARY(^, expr, rhs); break;
+			case T_AMP: expr = RESULT_BINARY(&, expr, rhs); break;
+			case T_EQ: expr = RESULT_BINARY_COND(==, expr, rhs); break;
+			case T_NEQ: expr = RESULT_BINARY_COND(!=, expr, rhs); break;
+			case T_LEQ: expr = RESULT_BINARY_COND(<=, expr, rhs); break;
+			case T_GEQ: expr = RESULT_BINARY_COND(>=, expr, rhs); break;
+			case T_L: expr = RESULT_BINARY_COND(<, expr, rhs); break;
+			case T_G: expr = RESULT_BINARY_COND(>, expr, rhs); break;
+			case T_ADD: expr = RESULT_ARITH(+, expr, rhs); break;
+			case T_SUB: expr = RESULT_ARITH(-, expr, rhs); break;
+			case T_STAR: expr = RESULT_ARITH(*, expr, rhs); break;
+			case T_DIV:
+				if (evaluate) {
 					check_div_overflow(&t, expr, rhs);
 					expr = RESULT_BINARY(/, expr, rhs);
-					break;
-				case T_MOD:
+				}
+				break;
+			case T_MOD:
+				if (evaluate) {
 					check_div_overflow(&t, expr, rhs);
 					expr = RESULT_BINARY(%, expr, rhs);
-					break;
-				default:
-					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
 				}
+				break;
+			default:
+				if (evaluate || t.type != T_COMMA)
+					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
+				expr = rhs;
 			}
 		}
 
@@ -328,23 +412,28 @@ static struct result evaluate_expression(int prec, int evaluate) {
 	return expr;
 }
 
-static struct result evaluate_until_newline(void) {
+static struct result evaluate_until_newline(struct token directive) {
 	buffer.size = 0;
 	struct token t = next();
 	while (!t.first_of_line) {
-		if (sv_string_cmp(t.str, "defined")) {
+		if (t.type == T_IDENT && sv_string_cmp(t.str, "defined")) {
 			t = next();
-			int has_lpar = t.type == T_LPAR;
+			int has_lpar = t.type == T_LPAR && !t.first_of_line;
 			if (has_lpar)
 				t = next();
 
-			int is_defined = define_map_get(t.str) != NULL;
+			if (t.first_of_line || t.type != T_IDENT)
+				ERROR(directive.pos, "Expected identifier after defined");
+
+			int is_defined = is_macro_defined(t.str);
 			token_list_add(&buffer, (struct token) {.type = T_NUM, .str = is_defined ? sv_from_str("1") :
 					sv_from_str("0")});
 
 			t = next();
 
 			if (has_lpar) {
+				if (t.first_of_line)
+					ERROR(directive.pos, "Expected ) after defined");
 				EXPECT(&t, T_RPAR);
 				t = next();
 			}
@@ -357,10 +446,16 @@ static struct result evaluate_until_newline(void) {
 	push(t);
 
 	expand_token_list(&buffer);
-	token_list_add(&buffer, (struct token) { .type = T_EOI });
+	token_list_add(&buffer, (struct token) { .type = T_EOI, .pos = directive.pos });
 
 	buffer_pos = 0;
-	return evaluate_expression(0, 1);
+	struct result result = evaluate_expression(0, 1);
+
+	struct token end = buffer_next();
+	if (end.type != T_EOI)
+		ERROR(directive.pos, "Unexpected %s after expression of directive", dbg_token(&end));
+
+	return result;
 }
 
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
@@ -373,7 +468,27 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 
 	expand_token_list(&buffer);
 
-	if (buffer.size != 1 || buffer.list[0].type != T_STRING)
+	if (buffer.size > 2 && buffer.list[0].type == T_L) {
+		*system = 1;
+
+		char *path = NULL;
+		size_t size = 0, cap = 0;
+		int i = 1;
+		for (; i < buffer.size && buffer.list[i].type != T_G; i++) {
+			struct token *part = &buffer.list[i];
+			if (part->whitespace)
+				ADD_ELEMENT(size, cap, path) = ' ';
+			for (int j = 0; j < part->str.len; j++)
+				ADD_ELEMENT(size, cap, path) = part->str.str[j];
+		}
+
+		if (i != buffer.size - 1)
+			ERROR(dir.pos, "Invalidly formatted path to #include directive.");
+
+		return (struct string_view) { .str = path, .len = size };
+	}
+
+	if (buffer.size != 1 || buffer.list[0].type != T_STRING || buffer.list[0].str.str[0] != '"')
 		ERROR(dir.pos, "Invalidly formatted path to #include directive.");
 
 	*system = 0;
@@ -387,96 +502,81 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 }
 
 static int directiver_evaluate_conditional(struct token dir) {
+	int result;
+
 	if (sv_string_cmp(dir.str, "ifdef") ||
 		sv_string_cmp(dir.str, "elifdef")) {
-		return (define_map_get(next().str) != NULL);
+		result = is_macro_defined(next_macro_name(dir).str);
 	} else if (sv_string_cmp(dir.str, "ifndef") ||
 			   sv_string_cmp(dir.str, "elifndef")) {
-		return !(define_map_get(next().str) != NULL);
+		result = !is_macro_defined(next_macro_name(dir).str);
 	} else if (sv_string_cmp(dir.str, "if") ||
 			   sv_string_cmp(dir.str, "elif")) {
-		return !result_is_zero(evaluate_until_newline());
+		return !result_is_zero(evaluate_until_newline(dir));
 	} else if (sv_string_cmp(dir.str, "else")) {
-		return 1;
+		result = 1;
+	} else {
+		ERROR(dir.pos, "Invalid conditional directive");
 	}
 
-	ERROR(dir.pos, "Invalid conditional directive");
+	skip_line();
+	return result;
 }
 
 static void push_macro(struct string_view name) {
-	struct macro_stack *stack = NULL;
-	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
-			stack = &macro_stacks[i];
-		}
-	}
-
-	if (!stack) {
-		stack = &ADD_ELEMENT(macro_stack_size, macro_stack_cap, macro_stacks);
-		*stack = (struct macro_stack) { 0 };
-	}
-
 	struct define *current_define = define_map_get(name);
+	struct saved_macro saved = { .name = name, .is_defined = current_define != NULL };
 	if (current_define)
-		ADD_ELEMENT(stack->size, stack->cap, stack->defines) = *current_define;
+		saved.define = *current_define;
+	ADD_ELEMENT(macro_stack_size, macro_stack_cap, macro_stack) = saved;
 }
 
 static void pop_macro(struct string_view name) {
-	struct macro_stack *stack = NULL;
-	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
-			stack = &macro_stacks[i];
-		}
-	}
+	for (unsigned i = macro_stack_size; i-- > 0;) {
+		struct saved_macro saved = macro_stack[i];
+		if (!sv_cmp(saved.name, name))
+			continue;
 
-	if (!stack)
-		return;
+		if (saved.is_defined)
+			define_map_add(saved.define);
+		else
+			define_map_remove(name);
 
-	define_map_add(stack->defines[--stack->size]);
+		REMOVE_ELEMENT(macro_stack_size, macro_stack, i);
+		return;
+	}
+}
 
-	if (!stack->size)
-		REMOVE_ELEMENT(macro_stack_size, macro_stacks, stack - macro_stacks);
+static struct string_view pragma_macro_name(void) {
+	struct token lpar = next();
+	if (lpar.type != T_LPAR)
+		ERROR(lpar.pos, "Expected (, got %s", dbg_token_type(lpar.type));
+	struct token name_token = next();
+	if (name_token.type != T_STRING)
+		ERROR(name_token.pos, "Expected string got %s", dbg_token_type(name_token.type));
+	struct token rpar = next();
+	if (rpar.type != T_RPAR)
+		ERROR(rpar.pos, "Expected ), got %s", dbg_token_type(rpar.type));
+	skip_line();
+
+	struct string_view name = name_token.str;
+	name.str++;
+	name.len -= 2;
+	return name;
 }
 
 static int directiver_handle_pragma(void) {
 	struct token command = next();
 
-	if (sv_string_cmp(command.str, "once")) {
+	if (command.first_of_line) {
+		push(command);
+	} else if (sv_string_cmp(command.str, "once")) {
 		input_disable_path(current_file->path);
+		skip_line();
 	} else if (sv_string_cmp(command.str, "push_macro")) {
-		struct token lpar = next();
-		if (lpar.type != T_LPAR)
-			ERROR(lpar.pos, "Expected (, got %s", dbg_token_type(lpar.type));
-		struct token name_token = next();
-		if (name_token.type != T_STRING)
-			ERROR(name_token.pos, "Expected string got %s", dbg_token_type(lpar.type));
-		struct token rpar = next();
-		if (rpar.type != T_RPAR)
-			ERROR(rpar.pos, "Expected ), got %s", dbg_token_type(lpar.type));
-
-		struct string_view name = name_token.str;
-		name.str++;
-		name.len -= 2;
-
-		push_macro(name);
+		push_macro(pragma_macro_name());
 	} else if (sv_string_cmp(command.str, "pop_macro")) {
-		struct token lpar = next();
-		if (lpar.type != T_LPAR)
-			ERROR(lpar.pos, "Expected (, got %s", dbg_token_type(lpar.type));
-		struct token name_token = next();
-		if (name_token.type != T_STRING)
-			ERROR(name_token.pos, "Expected string got %s", dbg_token_type(lpar.type));
-		struct token rpar = next();
-		if (rpar.type != T_RPAR)
-			ERROR(rpar.pos, "Expected ), got %s", dbg_token_type(lpar.type));
-
-		struct string_view name = name_token.str;
-		name.str++;
-		name.len -= 2;
-
-		pop_macro(name);
+		pop_macro(pragma_macro_name());
 	} else {
 		push(command);
 		return 1;
@@ -485,16 +585,98 @@ static int directiver_handle_pragma(void) {
 	return 0;
 }
 
-struct token directiver_next(void) {
-	static int cond_stack_n = 0, cond_stack_cap = 0;
-	static int *cond_stack = NULL;
+// 6.10.4
+static void directiver_line(struct token directive) {
+	struct tokenized_file *file = current_file;
+
+	buffer.size = 0;
+	struct token t = next();
+	while (!t.first_of_line) {
+		token_list_add(&buffer, t);
+		t = next();
+	}
+
+	// The position of the next token depends on this directive.
+	if (current_file == file && t.type != T_EOI)
+		file->token_idx--;
+	else
+		push(t);
+
+	expand_token_list(&buffer);
+
+	if (buffer.size == 0 || buffer.list[0].type != T_NUM)
+		ERROR(directive.pos, "Expected digit sequence after #line");
+	if (buffer.size > 2)
+		ERROR(directive.pos, "Unexpected tokens after #line");
+
+	file->line_diff += atoi(sv_to_str(buffer.list[0].str)) - directive.pos.line - 1;
+
+	if (buffer.size == 2) {
+		struct token s_char_seq = buffer.list[1];
+		if (s_char_seq.type != T_STRING || s_char_seq.str.str[0] != '"')
+			ERROR(s_char_seq.pos, "Expected s char sequence as second argument to #line");
+
+		char *path = NULL;
+		size_t size = 0, cap = 0;
+		for (int i = 1; i < s_char_seq.str.len - 1; i++) {
+			if (s_char_seq.str.str[i] == '\\')
+				i++;
+			ADD_ELEMENT(size, cap, path) = s_char_seq.str.str[i];
+		}
+		ADD_ELEMENT(size, cap, path) = '\0';
+		file->new_path = path;
+	}
+}
+
+static void directiver_conditional(struct token directive, int is_processed) {
+	struct string_view name = directive.str;
 
-	if (cond_stack_n == 0)
-		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = 1;
+	if (sv_string_cmp(name, "ifndef") ||
+		sv_string_cmp(name, "ifdef") ||
+		sv_string_cmp(name, "if")) {
+		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = (struct conditional) { .state = -1 };
+		if (is_processed)
+			cond_stack[cond_stack_n - 1].state = directiver_evaluate_conditional(directive);
+		return;
+	}
+
+	if (cond_stack_n == current_file->cond_depth)
+		ERROR(directive.pos, "#%.*s without #if", name.len, name.str);
+
+	struct conditional *top = &cond_stack[cond_stack_n - 1];
+
+	if (sv_string_cmp(name, "endif")) {
+		cond_stack_n--;
+		skip_line();
+		return;
+	}
+
+	if (top->has_else)
+		ERROR(directive.pos, "#%.*s after #else", name.len, name.str);
+	top->has_else = sv_string_cmp(name, "else");
 
+	top->state = top->state == 0 ? directiver_evaluate_conditional(directive) : -1;
+}
+
+static int is_conditional(struct string_view name) {
+	return sv_string_cmp(name, "ifndef") ||
+		sv_string_cmp(name, "ifdef") ||
+		sv_string_cmp(name, "if") ||
+		sv_string_cmp(name, "elif") ||
+		sv_string_cmp(name, "else") ||
+		sv_string_cmp(name, "elifndef") ||
+		sv_string_cmp(name, "elifdef") ||
+		sv_string_cmp(name, "endif");
+}
+
+static int is_processing(void) {
+	return cond_stack_n == 0 || cond_stack[cond_stack_n - 1].state == 1;
+}
+
+struct token directiver_next(void) {
 	struct token t = next();
 	int pass_directive = 0;
-	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
+	while ((t.type == PP_DIRECTIVE || !is_processing()) &&
 		!pass_directive) {
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
@@ -508,41 +690,24 @@ struct token directiver_next(void) {
 		}
 
 		if (directive.type != T_IDENT &&
-			cond_stack[cond_stack_n - 1] != 1) {
+			!is_processing()) {
 			t = directive;
 			continue;
 		}
 
 		struct string_view name = directive.str;
 
-		assert(directive.type == T_IDENT);
+		if (directive.type != T_IDENT)
+			ERROR(directive.pos, "Expected directive name after #, got %s", dbg_token(&directive));
 
-		if (sv_string_cmp(name, "ifndef") ||
-			sv_string_cmp(name, "ifdef") ||
-			sv_string_cmp(name, "if")) {
-			if (cond_stack[cond_stack_n - 1] == 1) {
-				int result = directiver_evaluate_conditional(directive);
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = result ? 1 : 0;
-			} else {
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = -1;
-			}
-		} else if (sv_string_cmp(name, "elif") ||
-				   sv_string_cmp(name, "else") ||
-				   sv_string_cmp(name, "elifndef") ||
-				   sv_string_cmp(name, "elifdef")) {
-			if (cond_stack[cond_stack_n - 1] == 0) {
-				int result = directiver_evaluate_conditional(directive);
-				cond_stack[cond_stack_n - 1] = result;
-			} else {
-				cond_stack[cond_stack_n - 1] = -1;
-			}
-		} else if (sv_string_cmp(name, "endif")) {
-			cond_stack_n--;
-		} else if (cond_stack[cond_stack_n - 1] == 1) {
+		if (is_conditional(name)) {
+			directiver_conditional(directive, is_processing());
+		} else if (is_processing()) {
 			if (sv_string_cmp(name, "define")) {
-				directiver_define();
+				directiver_define(directive);
 			} else if (sv_string_cmp(name, "undef")) {
-				define_map_remove(next().str);
+				define_map_remove(next_macro_name(directive).str);
+				skip_line();
 			} else if (sv_string_cmp(name, "error")) {
 				struct token msg = next();
 				if (msg.type == T_STRING)
@@ -550,10 +715,6 @@ struct token directiver_next(void) {
 				else
 					ERROR(directive.pos, "#error directive was invoked.");
 			} else if (sv_string_cmp(name, "include")) {
-				// There is an issue with just resetting after include. But
-				// I'm interpreting the standard liberally to allow for this.
-				new_path = NULL;
-				line_diff = 0;
 				struct string_view path;
 				struct token path_tok = next();
 				int system;
@@ -563,13 +724,12 @@ struct token directiver_next(void) {
 					system = path_tok.type == PP_HEADER_NAME_H;
 					path.len -= 2;
 					path.str++;
+					skip_line();
 				} else {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
 				directiver_push_input(sv_to_str(path), system);
-			} else if (sv_string_cmp(name, "endif")) {
-				// Do nothing.
 			} else if (sv_string_cmp(name, "pragma")) {
 				if (directiver_handle_pragma()) {
 					push(directive);
@@ -578,54 +738,7 @@ struct token directiver_next(void) {
 					pass_directive = 1;
 				}
 			} else if (sv_string_cmp(name, "line")) {
-				// 6.10.4
-				struct token digit_seq = next(), s_char_seq;
-
-				if (digit_seq.first_of_line)
-					ERROR(digit_seq.pos, "Expected digit sequence after #line");
-
-				int has_s_char_seq = 0;
-				if (digit_seq.type != T_NUM) {
-					buffer.size = 0;
-					struct token t = digit_seq;
-					while (!t.first_of_line) {
-						token_list_add(&buffer, t);
-						t = next();
-					}
-
-					push(t);
-
-					expand_token_list(&buffer);
-
-					if (buffer.size == 0) {
-						ERROR(digit_seq.pos, "Invalid #line macro expansion");
-					} else if (buffer.size >= 1) {
-						digit_seq = buffer.list[0];
-					} else if (buffer.size >= 2) {
-						s_char_seq = buffer.list[1];
-						has_s_char_seq = 1;
-					}
-				} else {
-					s_char_seq = next();
-					if (s_char_seq.first_of_line) {
-						push(s_char_seq);
-					} else {
-						has_s_char_seq = 1;
-					}
-				}
-
-				if (digit_seq.first_of_line || digit_seq.type != T_NUM)
-					ERROR(digit_seq.pos, "Expected digit sequence after #line");
-
-				line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
-
-				if (has_s_char_seq) {
-					if (s_char_seq.type != T_STRING)
-						ERROR(s_char_seq.pos, "Expected s char sequence as second argument to #line");
-					s_char_seq.str.len -= 2;
-					s_char_seq.str.str++;
-					new_path = sv_to_str(s_char_seq.str);
-				}
+				directiver_line(directive);
 			} else {
 				ERROR(directive.pos, "#%s not implemented", dbg_token(&directive));
 			}
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index c8750ea..98863e5 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -241,7 +241,7 @@ struct token string_concat_next(void) {
 	return t;
 }
 
-intmax_t escaped_character_constant_to_int(struct token t) {
+intmax_t escaped_character_constant_to_int(struct token t, int *is_unsigned) {
 	enum string_type type = take_string_prefix(&t.str);
 	buffer_start();
 	escape_string_to_buffer(t.str, type);
@@ -253,5 +253,12 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 		.str = buffer
 	};
 
-	return character_constant_to_int(tmp_view);
+	*is_unsigned = type == STRING_U_SMALL || type == STRING_U_LARGE;
+
+	switch (type) {
+	case STRING_U_SMALL: return character_constant_char16_to_int(tmp_view);
+	case STRING_U_LARGE: return (uint32_t)character_constant_char32_to_int(tmp_view);
+	case STRING_L: return (int32_t)character_constant_wchar_to_int(tmp_view);
+	default: return character_constant_to_int(tmp_view);
+	}
 }
diff --git a/src/preprocessor/string_concat.h b/src/preprocessor/string_concat.h
index cbebc9d..8272e94 100644
--- a/src/preprocessor/string_concat.h
+++ b/src/preprocessor/string_concat.h
@@ -7,6 +7,6 @@ struct token string_concat_next(void);
 
 // Used in directives.c to get integer values of
 // non-escaped character constants.
-intmax_t escaped_character_constant_to_int(struct token t);
+intmax_t escaped_character_constant_to_int(struct token t, int *is_unsigned);
 
 #endif
-- 
2.43.0


From a16541e84ed2902e737f2662f14074835e821dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:45 +0000
Subject: [PATCH 39/66] fix: a directive after the name of a function-like
 macro can undefine it

property=C15
---
 src/preprocessor/macro_expander.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 762373f..31d8a12 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -487,9 +487,13 @@ void expand_buffer(int input, int return_output, struct token *t) {
 
 		assert(def);
 
-		if ((def->func && (input || input_buffer.size) && input_buffer_top(input)->type == T_LPAR) ||
-			!def->func) {
-			subs_buffer(top, def, &top.hs, top.pos, input);
+		// Directives can follow the name of a function-like macro,
+		// and change or remove its definition.
+		struct define current_def = *def;
+
+		if ((current_def.func && (input || input_buffer.size) && input_buffer_top(input)->type == T_LPAR) ||
+			!current_def.func) {
+			subs_buffer(top, &current_def, &top.hs, top.pos, input);
 		} else {
 			if (return_output) {
 				*t = top;
-- 
2.43.0


From cc9abffb763f408e32a7e95df9cbe99f14349fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 40/66] fix: zero-extend the value of U'' character constants

property=C17
U'\xffffffff' had the value -1 when converted to long.
---
 src/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 7b9cfcc..a973b21 100644
--- a/src/common.c
+++ b/src/common.c
@@ -88,7 +88,7 @@ intmax_t character_constant_char16_to_int(struct string_view str) {
 }
 
 intmax_t character_constant_char32_to_int(struct string_view str) {
-	return character_constant_wchar_to_int(str);
+	return (uint32_t)character_constant_wchar_to_int(str);
 }
 
 uint64_t gen_mask(unsigned char left_pad, unsigned char right_pad) {
-- 
2.43.0


From be73dee6d3dbb20c09a02c9c1421501882d8ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 41/66] fix: accept e, E, p and P after a digit separator

property=C17
0x9'e3 was rejected.
---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index bfb7947..b159565 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -130,7 +130,7 @@ static void parse_number(void) {
 		} else if (c == '\'') {
 			next_char();
 			if (c == '8' || c == EQ_DECIMAL || c == EQ_ALPHA ||
-				c == 'u' || c == 'U' || c == 'L') {
+				c == 'u' || c == 'U' || c == 'L' || c == EQ_EXPONENT) {
 				needs_digit_separator_removed = 1;
 				next_char();
 			} else {
-- 
2.43.0


From 1134d1662a198e1c105aa7cbd1ba4225eb5c84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:02 +0000
Subject: [PATCH 42/66] fix: mark .data writable and .rodata non-executable in
 ELF objects

property=C13
A program linked only from this compiler's objects got read-only data.
---
 src/linker/elf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..0a3d4f6 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -332,7 +332,11 @@ static struct elf_file *elf_from_object(struct object *object) {
 			memcpy(elf_section->data, section->data, elf_section->size);
 		}
 
-		elf_section->header.sh_flags = SHF_ALLOC | SHF_EXECINSTR;
+		elf_section->header.sh_flags = SHF_ALLOC;
+		if (strcmp(section->name, ".text") == 0)
+			elf_section->header.sh_flags |= SHF_EXECINSTR;
+		else if (strcmp(section->name, ".rodata") != 0)
+			elf_section->header.sh_flags |= SHF_WRITE;
 		elf_section->header.sh_addralign = section->alignment;
 	}
 
-- 
2.43.0


From 74c014584da986e70b1d23df6123663fb9ff77c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:02 +0000
Subject: [PATCH 43/66] fix: allow labels of any length

property=C12
Identifiers of 64 or more characters were rejected with an internal error.
---
 src/assembler/assembler.c |  4 +---
 src/codegen/rodata.c      | 27 +++++++++++++++++++--------
 src/codegen/rodata.h      |  2 +-
 src/linker/object.c       | 15 ++++-----------
 4 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..1b8c5ac 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -63,9 +63,7 @@ static void asm_emit_no_newline(const char *fmt, ...) {
 }
 
 static void emit_label(label_id id) {
-	char buffer[64];
-	rodata_get_label(id, sizeof buffer, buffer);
-	asm_emit_no_newline("%s", buffer);
+	asm_emit_no_newline("%s", rodata_get_label(id));
 }
 
 void asm_section(const char *section) {
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 9a0eff3..2c22750 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -47,20 +47,31 @@ label_id rodata_register(struct string_view str) {
 	return label_register(ENTRY_STR, str);
 }
 
-void rodata_get_label(label_id id, int n, char buffer[]) {
-	int res;
+// The returned string is valid until the next call.
+const char *rodata_get_label(label_id id) {
+	static char *buffer = NULL;
+	static int buffer_size = 0;
+
+	int is_name = id >= 0 && entries[id].type == ENTRY_LABEL_NAME;
+	int needed = is_name ? entries[id].name.len + 1 : 64;
+
+	if (needed > buffer_size) {
+		buffer_size = MAX(needed, buffer_size * 2);
+		buffer = cc_realloc(buffer, buffer_size);
+	}
+
 	if (id < 0) { // Temporary label.
-		res = snprintf(buffer, n, ".L%d", -id);
+		snprintf(buffer, buffer_size, ".L%d", -id);
 	} else if (entries[id].type == ENTRY_STR) {
-		res = snprintf(buffer, n, ".Ls%d", id);
-	} else if (entries[id].type == ENTRY_LABEL_NAME) {
-		res = snprintf(buffer, n, "%.*s", entries[id].name.len, entries[id].name.str);
+		snprintf(buffer, buffer_size, ".Ls%d", id);
+	} else if (is_name) {
+		memcpy(buffer, entries[id].name.str, needed - 1);
+		buffer[needed - 1] = '\0';
 	} else {
 		NOTIMP();
 	}
 
-	if (res >= n)
-		ICE("Label name too long");
+	return buffer;
 }
 
 void rodata_codegen(void) {
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1dfc83d..d3e83f4 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -9,7 +9,7 @@ label_id rodata_register(struct string_view str);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
 
-void rodata_get_label(label_id id, int n, char buffer[]);
+const char *rodata_get_label(label_id id);
 
 void rodata_codegen(void);
 
diff --git a/src/linker/object.c b/src/linker/object.c
index ca0cc34..6c0896b 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -9,13 +9,11 @@ static struct object current_object;
 static int current_section = -1;
 
 static int get_symbol(label_id label) {
-	char buffer[64];
-
-	rodata_get_label(label, sizeof buffer, buffer);
+	const char *name = rodata_get_label(label);
 
 	for (unsigned i = 0; i < current_object.symbol_size; i++) {
 		if (current_object.symbols[i].name &&
-			strcmp(current_object.symbols[i].name, buffer) == 0)
+			strcmp(current_object.symbols[i].name, name) == 0)
 			return i;
 	}
 
@@ -23,13 +21,8 @@ static int get_symbol(label_id label) {
 		.section = -1,
 	};
 
-	if (label != -1) {
-		char buffer[64];
-
-		rodata_get_label(label, sizeof buffer, buffer);
-
-		symbol.name = strdup(buffer);
-	}
+	if (label != -1)
+		symbol.name = strdup(name);
 
 	ADD_ELEMENT(current_object.symbol_size, current_object.symbol_cap, current_object.symbols) = symbol;
 
-- 
2.43.0


From e1e6e11272634cd12aff65ceab01637213e33e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 44/66] fix: linkage, tentative and inline definitions, and
 redeclarations

property=C13
static followed by a declaration without static made the function global, a
redeclaration with extern lost a tentative definition, inline definitions were
emitted as external definitions, redefinitions and missing commas were
accepted, and variables did not hide typedef names of outer scopes.
---
 src/codegen/codegen.c        |   1 +
 src/ir/ir.h                  |   1 +
 src/parser/declaration.c     | 210 +++++++++++++++++++++++------------
 src/parser/function_parser.c |   6 +-
 src/parser/function_parser.h |   2 +-
 src/parser/symbols.c         |  17 ++-
 src/parser/symbols.h         |  10 +-
 7 files changed, 170 insertions(+), 77 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index a39bd04..06ed1bb 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -811,6 +811,7 @@ int codegen_get_alloc_preamble(void) {
 
 void codegen(void) {
 	for (struct node *func = first_function; func; func = func->next)
+		if (!func->function.is_inline_definition)
 		codegen_function(func);
 
 	rodata_codegen();
diff --git a/src/ir/ir.h b/src/ir/ir.h
index cdcf8a1..7537805 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -163,6 +163,7 @@ struct node {
 
 		struct {
 			int is_global;
+			int is_inline_definition; // Not emitted.
 			const char *name;
 			int preamble_alloc;
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index da6e1f8..51efec2 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1242,7 +1242,75 @@ struct {
 	struct string_view *names;
 } potentially_tentative;
 
-static int parse_init_declarator(struct specifiers s, int external, int *was_func) {
+// External definitions of functions that might turn out to only be inline definitions.
+static struct {
+	size_t size, cap;
+	struct inline_candidate {
+		struct string_view name;
+		struct node *function;
+	} *functions;
+} inline_candidates;
+
+static enum linkage get_linkage(const struct specifiers *s, struct type *type, struct symbol_identifier *visible, int external) {
+	if (external && s->scs.static_n)
+		return LINKAGE_INTERNAL;
+
+	if (s->scs.extern_n || type->type == TY_FUNCTION)
+		return visible && visible->linkage != LINKAGE_NONE ? visible->linkage : LINKAGE_EXTERNAL;
+
+	return external ? LINKAGE_EXTERNAL : LINKAGE_NONE;
+}
+
+// Checks for agreement with the previous declaration of the same entity, and merges the types.
+static struct type *merge_declaration(struct symbol_identifier *symbol, struct string_view name, struct type *type, enum linkage linkage) {
+	if (linkage == LINKAGE_NONE || symbol->linkage != linkage)
+		ERROR(T0->pos, "Redeclaration of %.*s", name.len, name.str);
+
+	struct type *prev_type = symbols_get_identifier_type(symbol);
+	struct type *composite_type = type_make_composite(type, prev_type);
+
+	if (!composite_type)
+		ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
+			  strdup(dbg_type(type)));
+
+	return composite_type;
+}
+
+static void parse_function_definition(struct specifiers *s, struct string_view name, struct type *type, struct type_ast *ast) {
+	if (type->type != TY_FUNCTION)
+		ERROR(T0->pos, "Expected function type before function body.");
+
+	int arg_n = 0;
+	struct symbol_identifier **args = NULL;
+	ast_get_parameters(ast, &arg_n, &args);
+
+	if (arg_n && !args)
+		ERROR(T0->pos, "Should not be null");
+
+	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
+	enum linkage linkage = get_linkage(s, type, symbol, 1);
+
+	if (symbol) {
+		merge_declaration(symbol, name, type, linkage);
+		if (symbol->has_definition)
+			ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
+	} else {
+		symbol = symbols_add_identifier_global(name);
+		symbol->linkage = linkage;
+	}
+
+	symbol->has_definition = 1;
+	if (!s->fs.inline_n || s->scs.extern_n)
+		symbol->is_external_definition = 1;
+
+	parse_function(symbol, name, type, arg_n, args, linkage == LINKAGE_EXTERNAL);
+
+	if (linkage == LINKAGE_EXTERNAL && !symbol->is_external_definition)
+		ADD_ELEMENT(inline_candidates.size, inline_candidates.cap, inline_candidates.functions) =
+			(struct inline_candidate) { name, get_current_function() };
+}
+
+static int parse_init_declarator(struct specifiers s, int external, int first, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
 	struct type_ast *ast = parse_declarator(&was_abstract, &has_symbols);
@@ -1258,20 +1326,16 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	type = ast_to_type(&s.ts, &s.tq, ast, &name, 0);
 
 	if (T0->type == T_LBRACE) {
-		int arg_n = 0;
-		struct symbol_identifier **args = NULL;
-		ast_get_parameters(ast, &arg_n, &args);
-
 		if (!has_symbols)
 			symbols_push_scope();
 
 		if (!external)
 			ERROR(T0->pos, "Function definition are not allowed inside functions.");
 
-		if (arg_n && !args)
-			ERROR(T0->pos, "Should not be null");
+		if (!first || s.scs.typedef_n)
+			ERROR(T0->pos, "Function definition not allowed here.");
 
-		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
+		parse_function_definition(&s, name, type, ast);
 		*was_func = 1;
 		return 1;
 	}
@@ -1288,29 +1352,44 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		type_evaluate_vla(type);
 	}
 
+	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
+	struct symbol_typedef *prev_typedef = symbols_get_typedef_in_current_scope(name);
+
 	if (s.scs.typedef_n) {
+		if (T0->type == T_A)
+			ERROR(T0->pos, "Typedef can't have initializer.");
+
+		if (symbol)
+			ERROR(T0->pos, "%.*s redeclared as typedef", name.len, name.str);
+
+		if (prev_typedef) {
+			struct type *composite_type = type_make_composite(type, prev_typedef->data_type);
+			if (!composite_type)
+				ERROR(T0->pos, "Typedef %.*s redefined with different type", name.len, name.str);
+			type = composite_type;
+		}
+
 		symbols_add_typedef(name)->data_type = type;
 		return 1;
 	}
 
-	// Check for agreement with previous declarations.
-	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
-	int prev_definition = 0;
+	if (prev_typedef)
+		ERROR(T0->pos, "Typedef %.*s redeclared", name.len, name.str);
 
-	if (symbol) {
-		prev_definition = symbol->has_definition;
-		struct type *prev_type = symbols_get_identifier_type(symbol);
-		struct type *composite_type = type_make_composite(type, prev_type);
+	struct symbol_identifier *visible = symbols_get_identifier(name);
+	enum linkage linkage = get_linkage(&s, type, visible, external);
 
-		if (!composite_type)
-			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
-				  strdup(dbg_type(type)));
-
-		type = composite_type;
+	// Check for agreement with previous declarations.
+	if (symbol) {
+		type = merge_declaration(symbol, name, type, linkage);
 	} else {
+		if (linkage != LINKAGE_NONE && visible && visible->linkage == linkage)
+			type = merge_declaration(visible, name, type, linkage);
+
 		symbol = symbols_add_identifier(name);
+		symbol->linkage = linkage;
 	}
-	
+
 	int has_init = TACCEPT(T_A);
 
 	// Handle function definitions first, since they differ a bit from the others.
@@ -1320,6 +1399,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!external && s.scs.static_n)
 			ERROR(T0->pos, "Function declarations outside file-scope can't be static.");
 
+		if (external && (!s.fs.inline_n || s.scs.extern_n))
+			symbol->is_external_definition = 1;
+
 		symbol->type = IDENT_LABEL;
 		symbol->label.name = name;
 		symbol->label.type = type;
@@ -1327,55 +1409,28 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
-	int definition_is_static = 0;
-	int has_definition = 0;
-	int is_global = 0;
-	int is_tentative = 0;
-
-	if (s.scs.extern_n && has_init)
+	if (s.scs.extern_n && has_init && !external)
 		ERROR(T0->pos, "Extern declaration can't have initializer.");
 
 	if (s.scs.register_n)
 		symbol->is_register = 1;
 
-	if (external) {
-		definition_is_static = 1;
-
-		if (!s.scs.static_n)
-			is_global = 1;
+	int definition_is_static = external || s.scs.static_n;
+	int has_definition = has_init || (!external && !s.scs.extern_n);
+	int is_global = linkage == LINKAGE_EXTERNAL;
 
-		if (s.scs.extern_n) {
-			has_definition = 0;
-		} else if (has_init) {
-			has_definition = 1;
-		} else {
-			is_tentative = 1;
-		}
-	} else {
-		if (s.scs.static_n)
-			definition_is_static = 1;
-		if (s.scs.extern_n) {
-			has_definition = 0;
-			is_global = 0;
-		} else {
-			has_definition = 1;
-		}
+	if (has_definition) {
+		if (symbol->has_definition)
+			ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
+		symbol->has_definition = 1;
+	} else if (external && !s.scs.extern_n && !symbol->is_tentative) {
+		symbol->is_tentative = 1;
+		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
 	}
 
 	if (s.as.alignment)
 		symbol->alignment = s.as.alignment;
 
-	if (!prev_definition) {
-		symbol->is_tentative = is_tentative;
-		symbol->is_global = is_global;
-		symbol->has_definition = has_definition;
-	} else {
-		if (!is_tentative && has_definition)
-			symbol->is_tentative = 0;
-	}
-	if (is_tentative && !prev_definition)
-		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
-
 	if (has_definition) {
 		if (definition_is_static) {
 			symbol->type = IDENT_LABEL;
@@ -1466,10 +1521,15 @@ int parse_declaration(int external) {
 		return 0;
 	}
 
-	int was_func = 0;
-	while (!was_func && parse_init_declarator(s, external, &was_func)) {
-		TACCEPT(T_COMMA);
-	}
+	if (TACCEPT(T_SEMI_COLON))
+		return 1;
+
+	int was_func = 0, first = 1;
+	do {
+		if (!parse_init_declarator(s, external, first, &was_func))
+			ERROR(T0->pos, "Expected declarator.");
+		first = 0;
+	} while (!was_func && TACCEPT(T_COMMA));
 
 	if (!was_func)
 		TEXPECT(T_SEMI_COLON);
@@ -1483,10 +1543,24 @@ void generate_tentative_definitions(void) {
 
 		struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
-		if (symbol && symbol->is_tentative) {
-			struct type *type = symbols_get_identifier_type(symbol);
-			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
-			symbol->is_tentative = 0;
-		}
+		if (symbol->has_definition)
+			continue;
+
+		struct type *type = symbols_get_identifier_type(symbol);
+		if (type->type == TY_INCOMPLETE_ARRAY)
+			type = type_array(type->children[0], 1);
+
+		data_register_static_var(name, type, (struct initializer) { 0 }, symbol->linkage == LINKAGE_EXTERNAL, symbol->alignment);
 	}
+
+	potentially_tentative.size = 0;
+
+	// Inline definitions don't provide any external definition.
+	for (size_t i = 0; i < inline_candidates.size; i++) {
+		struct inline_candidate *candidate = &inline_candidates.functions[i];
+		if (!symbols_get_identifier_global(candidate->name)->is_external_definition)
+			candidate->function->function.is_inline_definition = 1;
+	}
+
+	inline_candidates.size = 0;
 }
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index a9a5e8a..8b5d6e9 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -521,18 +521,14 @@ struct string_view get_current_function_name(void) {
 	return current_function;
 }
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global) {
+void parse_function(struct symbol_identifier *symbol, struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global) {
 	(void)arg_n;
 	current_function = name;
-	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
 	function_scope.size = 0;
 
 	current_ret_val = type->children[0];
 
-	if (!symbol)
-		symbol = symbols_add_identifier_global(name);
-
 	symbol->type = IDENT_LABEL;
 	symbol->label.type = type;
 	symbol->label.name = name;
diff --git a/src/parser/function_parser.h b/src/parser/function_parser.h
index c4aa6be..a61a2d0 100644
--- a/src/parser/function_parser.h
+++ b/src/parser/function_parser.h
@@ -4,7 +4,7 @@
 #include "parser.h"
 #include "parser/symbols.h"
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global);
+void parse_function(struct symbol_identifier *symbol, struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global);
 struct string_view get_current_function_name(void);
 
 #endif
diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..cc88a4f 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -158,6 +158,14 @@ static struct table_entry *symbols_get(enum entry_type type, struct string_view
 	return get_entry((struct entry_id) { type, name }, 0);
 }
 
+// Typedef names and identifiers share a name space, the innermost declaration is the visible one.
+static struct table_entry *symbols_get_ordinary(enum entry_type type, struct string_view name) {
+	enum entry_type other = type == ENTRY_TYPEDEF ? ENTRY_IDENTIFIER : ENTRY_TYPEDEF;
+	struct table_entry *entry = symbols_get(type, name), *hiding = symbols_get(other, name);
+
+	return hiding && entry && hiding->block > entry->block ? NULL : entry;
+}
+
 static struct table_entry *symbols_get_in_current_scope(enum entry_type type, struct string_view name) {
 	struct table_entry *entry = get_entry((struct entry_id) { type, name }, 0);
 
@@ -176,7 +184,7 @@ struct symbol_identifier *symbols_add_identifier(struct string_view name) {
 }
 
 struct symbol_identifier *symbols_get_identifier(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_IDENTIFIER, name);
+	struct table_entry *entry = symbols_get_ordinary(ENTRY_IDENTIFIER, name);
 	return entry ? entry->identifier_data : NULL;
 }
 
@@ -238,7 +246,12 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 }
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
+	struct table_entry *entry = symbols_get_ordinary(ENTRY_TYPEDEF, name);
+	return entry ? &entry->typedef_data : NULL;
+}
+
+struct symbol_typedef *symbols_get_typedef_in_current_scope(struct string_view name) {
+	struct table_entry *entry = symbols_get_in_current_scope(ENTRY_TYPEDEF, name);
 	return entry ? &entry->typedef_data : NULL;
 }
 
diff --git a/src/parser/symbols.h b/src/parser/symbols.h
index 0363ead..7575510 100644
--- a/src/parser/symbols.h
+++ b/src/parser/symbols.h
@@ -40,8 +40,15 @@ struct symbol_identifier {
 		} label;
 	};
 
-	int is_global, is_tentative, is_register;
+	enum linkage {
+		LINKAGE_NONE,
+		LINKAGE_INTERNAL,
+		LINKAGE_EXTERNAL
+	} linkage;
+
+	int is_tentative, is_register;
 	int has_definition;
+	int is_external_definition; // Has a file scope declaration without inline, or with extern.
 	int alignment;
 };
 
@@ -75,5 +82,6 @@ struct symbol_typedef {
 
 struct symbol_typedef *symbols_add_typedef(struct string_view name);
 struct symbol_typedef *symbols_get_typedef(struct string_view name);
+struct symbol_typedef *symbols_get_typedef_in_current_scope(struct string_view name);
 
 #endif
-- 
2.43.0


From bdd0d023e8ceb902ea57b0e21e5a4b410b62b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 45/66] fix: linker: give symbols the value of their
 definition, align sections, reject duplicates

property=C14
Undefined symbols took the section but not the value of their definition,
sections were not aligned, and a symbol that stays undefined without being
referred to read outside section_infos.
---
 src/linker/linker.c | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..6f67ddb 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -65,6 +65,18 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 		current_section_offset += objects[i].section_size;
 	}
 
+	for (unsigned i = 0; i < object.symbol_size; i++) {
+		struct symbol *symbol = &object.symbols[i];
+		if (!symbol->name || !symbol->global || symbol->section == -1)
+			continue;
+		for (unsigned j = 0; j < i; j++) {
+			struct symbol *other = &object.symbols[j];
+			if (other->name && other->global && other->section != -1 &&
+				strcmp(other->name, symbol->name) == 0)
+				ERROR_NO_POS("Linking error: \"%s\" is defined multiple times.", symbol->name);
+		}
+	}
+
 	// Link symbols.
 	for (unsigned i = 0; i < object.symbol_size; i++) {
 		struct symbol *symbol = &object.symbols[i];
@@ -73,17 +85,17 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 			if (!symbol->name) {
 				ICE("Invalid local relocation.\n");
 			}
-			int found_section = -1;
 			for (unsigned j = 0; j < object.symbol_size; j++) {
-				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
-					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
-						if (object.symbols[j].section != -1)
-							found_section = object.symbols[j].section;
-					}
+				struct symbol *definition = &object.symbols[j];
+				if (definition->name && definition->global && definition->section != -1 &&
+					strcmp(definition->name, symbol->name) == 0) {
+					symbol->section = definition->section;
+					symbol->value = definition->value;
+					symbol->size = definition->size;
+					symbol->global = 0;
+					break;
 				}
 			}
-
-			symbol->section = found_section;
 		}
 	}
 
@@ -93,7 +105,7 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 struct executable *linker_link(int n_objects, struct object *_objects) {
 	struct executable executable = { 0 };
 
-	struct object *object = n_objects == 1 ? _objects : combine_objects(n_objects, _objects);
+	struct object *object = combine_objects(n_objects, _objects);
 
 	// To begin with we put everything into one large segment.
 	// This will be executable, writable, and readable.
@@ -116,14 +128,18 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	// Move sections into segment.
 	for (unsigned i = 0; i < object->section_size; i++) {
 		struct section *section = &object->sections[i];
-		uint8_t *dest = segment->data;
+		if (section->alignment > 1) {
+			size_t padding = round_up_to_nearest(segment->size, section->alignment) - segment->size;
+			memset(ADD_ELEMENTS(segment->size, segment->cap, segment->data, padding), 0, padding);
+		}
+
+		size_t offset = segment->size;
+
 		if (section->size) {
-			dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
+			uint8_t *dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
 			memcpy(dest, section->data, section->size);
 		}
 
-		size_t offset = dest - segment->data;
-
 		section_infos[i] = (struct section_info) {
 			.offset = offset,
 			.segment_idx = 0
@@ -170,6 +186,9 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
 
+		if (symbol->section == -1)
+			continue;
+
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
 
-- 
2.43.0


From d2370cd032489ddc4624eacec7b23b26bf905498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 46/66] fix: linker: read objects written by the system
 assembler

property=C14
Section symbols, .bss, section alignment, PLT32 and 32 relocations and
sections that are not loaded were not handled.
---
 src/linker/elf.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 0a3d4f6..fc066b8 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -51,6 +51,8 @@ enum {
 
 enum {
 	STT_NOTYPE = 0,
+	STT_OBJECT = 1,
+	STT_FUNC = 2,
 	STT_SECTION = 3
 };
 
@@ -202,10 +204,12 @@ static struct object *object_from_elf(struct elf_file *elf) {
 	for (unsigned i = 0; i < elf->section_size; i++)
 		section_mapping[i] = -1;
 
-	// Add progbits sections.
+	// Add sections that are part of the program.
 	for (unsigned i = 0; i < elf->section_size; i++) {
 		struct elf_section *elf_section = &elf->sections[i];
-		if (elf_section->header.sh_type != SHT_PROGBITS)
+		if (!(elf_section->header.sh_flags & SHF_ALLOC) ||
+			(elf_section->header.sh_type != SHT_PROGBITS &&
+			 elf_section->header.sh_type != SHT_NOBITS))
 			continue;
 
 		struct section *section =
@@ -214,6 +218,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 		section_mapping[i] = section - object.sections;
 
 		*section = (struct section) {
+			.alignment = elf_section->header.sh_addralign,
 			.size = elf_section->size,
 			.cap = elf_section->size,
 			.data = elf_section->data,
@@ -245,7 +250,21 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t st_value = read_64(symbol_data + 8);
 			uint64_t st_size = read_64(symbol_data + 16);
 
-			if ((st_info & 0xf) != STT_NOTYPE)
+			symbol_mapping[j] = -1;
+
+			switch (st_info & 0xf) {
+			case STT_NOTYPE: case STT_OBJECT: case STT_FUNC: case STT_SECTION: break;
+			default: continue;
+			}
+
+			if (st_shndx >= elf->section_size)
+				ICE("Symbol in section 0x%x not implemented.", st_shndx);
+
+			if (st_info >> 4 != STB_LOCAL && st_info >> 4 != STB_GLOBAL)
+				ICE("Symbol binding %d not implemented.", st_info >> 4);
+
+			// Symbols of sections that are not part of the program.
+			if (st_shndx && section_mapping[st_shndx] == -1)
 				continue;
 
 			struct symbol *symbol = &ADD_ELEMENT(object.symbol_size, object.symbol_cap, object.symbols);
@@ -267,6 +286,9 @@ static struct object *object_from_elf(struct elf_file *elf) {
 		if (elf_section->header.sh_type != SHT_RELA)
 			continue;
 
+		if (section_mapping[elf_section->header.sh_info] == -1)
+			continue;
+
 		struct section *target_section = &object.sections[section_mapping[elf_section->header.sh_info]];
 
 		size_t ent_size = elf_section->header.sh_entsize;
@@ -280,15 +302,17 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t r_addend = read_64(rela_data + 16);
 
 			int type = 0;
-			switch (r_info & 0xffff) {
+			switch (r_info & 0xffffffff) {
 			case R_X86_64_64: type = RELOCATE_64; break;
+			case R_X86_64_32:
 			case R_X86_64_32S: type = RELOCATE_32; break;
+			case R_X86_64_PLT32:
 			case R_X86_64_PC32: type = RELOCATE_32_RELATIVE; break;
 			default:
-				ICE("Relocation %lu not implemented.", r_info & 0xffff);
+				ICE("Relocation %lu not implemented.", r_info & 0xffffffff);
 			}
 
-			if (!symbol_mapping)
+			if (!symbol_mapping || symbol_mapping[r_info >> 32] == -1)
 				ICE("Invalid elf-file");
 
 			struct object_relocation *relocation =
@@ -297,7 +321,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			*relocation = (struct object_relocation) {
 				.add = r_addend,
 				.offset = r_offset,
-				.idx = symbol_mapping[(r_info >> 32) & 0xffff],
+				.idx = symbol_mapping[r_info >> 32],
 				.type = type,
 			};
 		}
@@ -685,7 +709,10 @@ static void read_sections(FILE *fp, struct elf_file *elf) {
 		read_skip(fp, section->header.sh_offset);
 
 		section->data = cc_malloc(section->size);
-		read(fp, section->data, section->size);
+		if (section->header.sh_type == SHT_NOBITS)
+			memset(section->data, 0, section->size);
+		else
+			read(fp, section->data, section->size);
 	}
 }
 
-- 
2.43.0


From aabb767a33d8829e8266965181726f4c6fe4cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 47/66] fix: make linked executables executable

property=C14
---
 src/linker/elf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index fc066b8..e794762 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <sys/stat.h>
 
 enum {
 	R_X86_64_NONE = 0,
@@ -842,6 +843,11 @@ void elf_write_executable(const char *path, struct executable *executable) {
 	elf_write(path, elf);
 	elf_free(elf);
 	free(elf);
+
+	// The executable gets the permissions a newly created executable has.
+	mode_t mask = umask(0);
+	umask(mask);
+	chmod(path, 0777 & ~mask);
 }
 
 struct object *elf_read_object(const char *path) {
-- 
2.43.0


From 36a378a3ca64c22ba398034109130c72ca248ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:48 +0000
Subject: [PATCH 48/66] fix: reset all state between the files of one
 invocation

property=C24
The objects of later files contained the strings and static variables of
the earlier ones, and IR nodes, labels and #pragma pack stacks survived.
---
 src/codegen/rodata.c     |  9 ++++++++-
 src/codegen/rodata.h     |  1 +
 src/ir/ir.c              |  7 +++++--
 src/main.c               |  3 +++
 src/parser/declaration.c | 15 +++++++++------
 src/parser/declaration.h |  3 +++
 src/parser/parser.c      |  2 ++
 7 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 2c22750..ce41c59 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -25,6 +25,8 @@ struct entry {
 static struct entry *entries = NULL;
 static int entries_size = 0, entries_cap = 0;
 
+static int tmp_label_idx = -2; // -1 is left for null label.
+
 static label_id label_register(enum entry_type type, struct string_view str) {
 	for (int i = 0; i < entries_size; i++) {
 		if (sv_cmp(entries[i].name, str) &&
@@ -91,7 +93,6 @@ label_id register_label_name(struct string_view str) {
 }
 
 label_id register_label(void) {
-	static int tmp_label_idx = -2; // -1 is left for null label.
 	return tmp_label_idx--;
 }
 
@@ -106,6 +107,12 @@ struct static_var {
 static struct static_var *static_vars = NULL;
 static int static_vars_size, static_vars_cap;
 
+void rodata_reset(void) {
+	entries_size = 0;
+	static_vars_size = 0;
+	tmp_label_idx = -2;
+}
+
 void data_register_static_var(struct string_view label, struct type *type, struct initializer init, int global, int alignment) {
 	ADD_ELEMENT(static_vars_size, static_vars_cap, static_vars) = (struct static_var) {
 		.label_ = register_label_name(label),
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index d3e83f4..40b116a 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -12,6 +12,7 @@ label_id register_label(void);
 const char *rodata_get_label(label_id id);
 
 void rodata_codegen(void);
+void rodata_reset(void);
 
 struct type;
 struct initializer;
diff --git a/src/ir/ir.c b/src/ir/ir.c
index d0e4995..0270ee8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -23,8 +23,7 @@ struct node **nodes;
 struct node *ir_new(int type, int size) {
 	struct node *next = ALLOC((struct node) { .type = type });
 
-	static int counter;
-	next->index = ++counter;
+	next->index = nodes_size + 1;
 	next->size = size;
 
 	next->parent_function = current_function;
@@ -82,6 +81,10 @@ void ir_reset(void) {
 	free(seals);
 	seal_size = seal_cap = 0;
 	seals = NULL;
+
+	free(nodes);
+	nodes_size = nodes_cap = 0;
+	nodes = NULL;
 }
 
 static void set_state(struct node *node);
diff --git a/src/main.c b/src/main.c
index 122b34f..6d4e509 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,7 @@
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
+#include "codegen/rodata.h"
 #include "common.h"
 #include "assembler/assembler.h"
 #include "linker/elf.h"
@@ -222,6 +223,7 @@ static void compile_file(const char *path,
 	ir_reset();
 	asm_reset();
 	parser_reset();
+	rodata_reset();
 }
 
 // This function is only called when -E flag is passed.
@@ -264,6 +266,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	ir_reset();
 	asm_reset();
 	parser_reset();
+	rodata_reset();
 }
 
 int main(int argc, char **argv) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 51efec2..7c12d16 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -14,6 +14,12 @@
 #include <assert.h>
 #include <stdint.h>
 
+static int anonymous_enum_counter = 0, anonymous_struct_counter = 0, local_variable_counter = 0;
+
+void declaration_reset(void) {
+	anonymous_enum_counter = anonymous_struct_counter = local_variable_counter = 0;
+}
+
 // Returns previous state of the bit.
 static int set_sbit(struct type_specifiers *ts, int bit_n) {
 	int prev = (ts->specifiers & bit_n) ? 1 : 0;
@@ -289,8 +295,7 @@ int parse_enum(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
-		static int anonymous_counter = 0;
-		name = sv_from_str(allocate_printf("<enum-%d>", anonymous_counter++));
+		name = sv_from_str(allocate_printf("<enum-%d>", anonymous_enum_counter++));
 	}
 
 	if (TACCEPT(T_LBRACE)) {
@@ -362,8 +367,7 @@ int parse_struct(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
-		static int anonymous_counter = 0;
-		name = sv_from_str(allocate_printf("<%d>", anonymous_counter++));
+		name = sv_from_str(allocate_printf("<%d>", anonymous_struct_counter++));
 	}
 
 	if (TACCEPT(T_LBRACE)) {
@@ -1436,8 +1440,7 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 			symbol->type = IDENT_LABEL;
 
 			if (!external) {
-				static int local_var = 0;
-				name = sv_from_str(allocate_printf(".LVAR%d%.*s", local_var++, name.len, name.str));
+				name = sv_from_str(allocate_printf(".LVAR%d%.*s", local_variable_counter++, name.len, name.str));
 			}
 
 			symbol->label.name = name;
diff --git a/src/parser/declaration.h b/src/parser/declaration.h
index 0da9425..f21c630 100644
--- a/src/parser/declaration.h
+++ b/src/parser/declaration.h
@@ -107,4 +107,7 @@ int parse_declaration(int external);
 
 void generate_tentative_definitions(void);
 
+// Resets all global state.
+void declaration_reset(void);
+
 #endif
diff --git a/src/parser/parser.c b/src/parser/parser.c
index a47283f..dc01dfe 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -22,6 +22,8 @@ void parser_reset(void) {
 	pack_size = pack_cap = 0;
 	current_packing = 0;
 	free(packs);
+	packs = NULL;
+	declaration_reset();
 	symbols_reset();
 }
 
-- 
2.43.0


From 06a6d6f74ae0f61327bec62ae9b31be99863d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 49/66] fix: absolute paths in #include, and directories in the
 search path

property=C18
---
 src/preprocessor/input.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b2f5194..afac326 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -34,10 +34,17 @@ static int length_of_path_without_filename(const char *str) {
 
 static FILE *try_open_file(const char *path) {
 	FILE *fp = fopen(path, "r");
-	if (!fp && errno != ENOENT) {
+	if (!fp && errno != ENOENT && errno != ENOTDIR) {
 		char *str = strerror(errno);
 		ICE("Error opening file %s, %s", path, str);
 	}
+
+	// A directory can be opened but not read.
+	if (fp && fgetc(fp) == EOF && ferror(fp)) {
+		fclose(fp);
+		return NULL;
+	}
+
 	return fp;
 }
 
@@ -62,7 +69,10 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 	static char *path_buffer = NULL;
 	static size_t path_capacity = 0;
 
-	if (!system) {
+	if (path[0] == '/') {
+		expand_printf(&path_buffer, &path_capacity, "%s", path);
+		fp = try_open_file(path_buffer);
+	} else if (!system) {
 		int length = length_of_path_without_filename(parent_path);
 
 		expand_printf(&path_buffer, &path_capacity, "%.*s%s", length,
@@ -70,7 +80,7 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 		fp = try_open_file(path_buffer);
 	}
 
-	for (unsigned i = 0; !fp && i < paths_size; i++) {
+	for (unsigned i = 0; !fp && path[0] != '/' && i < paths_size; i++) {
 		expand_printf(&path_buffer, &path_capacity, "%s/%s", paths[i], path);
 		fp = try_open_file(path_buffer);
 	}
-- 
2.43.0


From 485c94aaceb7a959602812eee8e060a373e6526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 50/66] fix: COFF objects with more than 65534 relocations in a
 section

The count in a section header has 16 bits; larger counts need
IMAGE_SCN_LNK_NRELOC_OVFL. Long section names were also off by the size
field of the string table.

property=C29
---
 src/linker/coff.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/linker/coff.c b/src/linker/coff.c
index 509dc51..ba0f482 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -136,6 +136,10 @@ static void coff_write_symbol(FILE *fp, struct coff_symbol *symbol) {
 	file_write_byte(fp, symbol->number_of_aux_symbols);
 }
 
+// The relocation count of a section header is limited to 16 bits. If there are
+// more, the count is instead found in the first entry of the relocation table.
+#define MAX_RELOCATIONS 0xffff
+
 static void coff_write_relocation(FILE *fp, struct coff_relocation *relocation) {
 	file_write_long(fp, relocation->virtual_address);
 	file_write_long(fp, relocation->symbol_table_index);
@@ -146,7 +150,9 @@ struct coff_section {
 	struct coff_section_header header;
 
 	uint8_t *data; // Size determined by header.
-	struct coff_relocation *relocations; // -||-
+
+	size_t relocation_size;
+	struct coff_relocation *relocations;
 };
 
 struct coff_file {
@@ -225,15 +231,23 @@ static struct coff_file *coff_from_object(struct object *object) {
 			if (strlen(section->name) > 8) {
 				int idx = coff_register_string(&file, section->name);
 				// This is just stupid:
-				sprintf((char *)coff_section->header.name, "/%d", idx);
+				char name[16];
+				sprintf(name, "/%d", idx + 4);
+				memcpy(coff_section->header.name, name, 8);
 			} else {
 				strncpy((char *)coff_section->header.name, section->name, 8);
 			}
 		}
 
+		if (section->relocation_size >= MAX_RELOCATIONS) {
+			coff_section->header.number_of_relocations = MAX_RELOCATIONS;
+			coff_section->header.characteristics |= IMAGE_SCN_LNK_NRELOC_OVFL;
+		}
+
+		coff_section->relocation_size = section->relocation_size;
 		coff_section->relocations = cc_malloc(sizeof *coff_section->relocations *
-											  coff_section->header.number_of_relocations);
-		for (unsigned j = 0; j < coff_section->header.number_of_relocations; j++) {
+											  coff_section->relocation_size);
+		for (unsigned j = 0; j < coff_section->relocation_size; j++) {
 			struct object_relocation *relocation = &section->relocations[j];
 			struct coff_relocation *coff_relocation = &coff_section->relocations[j];
 
@@ -288,7 +302,7 @@ static struct coff_file *coff_from_object(struct object *object) {
 
 		if (symbol->value > INT32_MAX) {
 			printf("Warning: Value of symbol %s truncated from %" PRIu64 " to %" PRIu32 ".\n",
-				   symbol->name ? "(null)" : symbol->name, symbol->value, (uint32_t)symbol->value);
+				   symbol->name ? symbol->name : "(null)", symbol->value, (uint32_t)symbol->value);
 		}
 
 		*coff_symbol = (struct coff_symbol) {
@@ -314,6 +328,10 @@ static struct coff_file *coff_from_object(struct object *object) {
 	return ret;
 }
 
+static int coff_section_has_overflow(struct coff_section *section) {
+	return (section->header.characteristics & IMAGE_SCN_LNK_NRELOC_OVFL) != 0;
+}
+
 static void coff_allocate(struct coff_file *coff) {
 	uint32_t address = 0;
 	address += 5 * 4; // Size of COFF file header.
@@ -329,7 +347,9 @@ static void coff_allocate(struct coff_file *coff) {
 		section->header.pointer_to_raw_data = address;
 		address += section->header.size_of_raw_data;
 		section->header.pointer_to_relocations = address;
-		address += section->header.number_of_relocations * (4 + 4 + 2);
+		if (coff_section_has_overflow(section))
+			address += 4 + 4 + 2;
+		address += section->relocation_size * (4 + 4 + 2);
 	}
 }
 
@@ -351,7 +371,9 @@ static void coff_write(const char *path, struct coff_file *coff) {
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
 		struct coff_section *section = &coff->sections[i];
 		file_write(fp, section->data, section->header.size_of_raw_data);
-		for (unsigned j = 0; j < section->header.number_of_relocations; j++) {
+		if (coff_section_has_overflow(section))
+			coff_write_relocation(fp, &(struct coff_relocation) { .virtual_address = section->relocation_size + 1 });
+		for (unsigned j = 0; j < section->relocation_size; j++) {
 			coff_write_relocation(fp, &section->relocations[j]);
 		}
 	}
-- 
2.43.0


From 1e68d1e02b65347dacd2bca0b0d85e32827c6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:51 +0000
Subject: [PATCH 51/66] fix: #pragma once recognizes a file under different
 spellings of its path

property=C18
---
 src/preprocessor/input.c | 41 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index afac326..e1a1f8d 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -32,6 +32,41 @@ static int length_of_path_without_filename(const char *str) {
 	return slash_pos;
 }
 
+// Different spellings of a path should be recognized as the same file. Symbolic
+// links are not considered.
+static char *normalize_path(const char *path) {
+	char *ret = cc_malloc(strlen(path) + 1);
+	int is_absolute = path[0] == '/', size = is_absolute, depth = 0;
+
+	if (is_absolute)
+		ret[0] = '/';
+
+	while (*path) {
+		int length = 0;
+		while (path[length] && path[length] != '/')
+			length++;
+
+		if (length == 2 && path[0] == '.' && path[1] == '.' && depth) {
+			// Remove the last component.
+			size--;
+			while (size > 0 && ret[size - 1] != '/')
+				size--;
+			depth--;
+		} else if (length != 0 && !(length == 1 && path[0] == '.')) {
+			if (!(length == 2 && path[0] == '.' && path[1] == '.'))
+				depth++;
+			memcpy(ret + size, path, length);
+			size += length;
+			ret[size++] = '/';
+		}
+
+		path += length + (path[length] == '/');
+	}
+
+	ret[size > 0 ? size - 1 : 0] = '\0';
+	return ret;
+}
+
 static FILE *try_open_file(const char *path) {
 	FILE *fp = fopen(path, "r");
 	if (!fp && errno != ENOENT && errno != ENOTDIR) {
@@ -60,7 +95,7 @@ void input_add_include_path(const char *path) {
 }
 
 void input_disable_path(const char *path) {
-	string_set_insert(&disabled_headers, strdup(path));
+	string_set_insert(&disabled_headers, normalize_path(path));
 }
 
 struct input input_open(const char *parent_path, const char *path, int system) {
@@ -91,8 +126,10 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 
 	struct input input = { 0 };
 
-	if (!string_set_contains(disabled_headers, sv_from_str(path_buffer)))
+	char *normalized = normalize_path(path_buffer);
+	if (!string_set_contains(disabled_headers, sv_from_str(normalized)))
 		input = input_create(strdup(path_buffer), fp);
+	free(normalized);
 
 	fclose(fp);
 
-- 
2.43.0


From 03ddfd0ac1e1baa45757712f6713d6b58f88b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:50 +0000
Subject: [PATCH 52/66] fix: track qualifiers and compatibility of types as C
 requires

Volatile was dropped from types, qualifiers of arrays did not reach
their elements, qualified parameters made function types different,
composite types were not formed recursively, members did not inherit
qualifiers, assignments and casts kept them, _Generic compared types by
identity, conditionals with pointers to differently qualified types,
void or null pointer constants had the wrong type, and sizeof did not
accept a compound literal.

property=C20
---
 src/debug.c                   |   8 +-
 src/parser/declaration.c      |  12 ++-
 src/parser/expression.c       | 180 +++++++++++++++++++++-------------
 src/parser/expression.h       |   2 +
 src/parser/expression_to_ir.c |   5 +-
 src/types.c                   | 101 ++++++++++++++-----
 src/types.h                   |   5 +-
 7 files changed, 207 insertions(+), 106 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index 8efcc1c..4b3284e 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -52,10 +52,12 @@ const char *dbg_type(struct type *type) {
 
 	int curr_pos = 0;
 
-	if (type->is_const)
-		DBG_PRINT("CONST ");
-
 	while (type) {
+		if (type->is_const)
+			DBG_PRINT("CONST ");
+		if (type->is_volatile)
+			DBG_PRINT("VOLATILE ");
+
 		switch (type->type) {
 		case TY_SIMPLE:
 			DBG_PRINT("SIMPLE %s", simple_to_str(type->simple));
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7c12d16..1e582f5 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -616,9 +616,7 @@ static int null_type_qualifier(struct type_qualifiers *tq) {
 }
 
 static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq) {
-	if (tq->const_n == 1)
-		type = type_make_const(type, 1);
-	return type;
+	return type_qualify(type, tq->const_n > 0, tq->volatile_n > 0);
 }
 
 struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qualifiers *tq, struct type_ast *ast, struct string_view *name, int allow_tq_in_array) {
@@ -646,7 +644,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 
 			struct type *parameters[ast->function.n + 1];
 			for (int i = 0; i < ast->function.n; i++)
-				parameters[i + 1] = ast->function.types[i];
+				parameters[i + 1] = type_remove_qualifications(ast->function.types[i]);
 			parameters[0] = type;
 
 			type = type_create(&params, parameters);
@@ -707,7 +705,11 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			if (!allow_tq_in_array && !null_type_qualifier(&ast->array.tq)) {
 				ICE("Can't have type qualifiers in array outside of function prototype.");
 			} else if (allow_tq_in_array) {
-				type = apply_tq(type, &ast->array.tq);
+				// These are the qualifiers of the adjusted type, not of the elements.
+				struct type params = *type;
+				params.is_const = ast->array.tq.const_n > 0;
+				params.is_volatile = ast->array.tq.volatile_n > 0;
+				type = type_create(&params, type->children);
 			}
 			ast = ast->parent;
 		} break;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 9bc5bc7..a636acb 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -52,6 +52,9 @@ static enum simple_type get_arithmetic_type(enum simple_type a, int bitfield_a,
 }
 
 static int get_expression_bitfield(struct expr *expr) {
+	if (expr->type == E_CONST_REMOVE)
+		return get_expression_bitfield(expr->args[0]);
+
 	if (expr->type == E_DOT_OPERATOR) {
 		assert(expr->member.lhs->data_type->type == TY_STRUCT);
 		struct struct_data *data = expr->member.lhs->data_type->struct_data;
@@ -82,15 +85,13 @@ static void convert_arithmetic(struct expr **a,
 
 static void decay_array(struct expr **expr) {
 	struct type *type = (*expr)->data_type;
-	if (type->type == TY_ARRAY ||
-		type->type == TY_INCOMPLETE_ARRAY ||
-		type->type == TY_VARIABLE_LENGTH_ARRAY) {
+	if (type_is_array(type)) {
 		*expr = EXPR_ARGS(E_ARRAY_PTR_DECAY, *expr);
 	} else if (type->type == TY_FUNCTION) {
 		*expr = EXPR_ARGS(E_ADDRESS_OF, *expr);
 	}
 
-	if ((*expr)->data_type->is_const)
+	if ((*expr)->data_type->is_const || (*expr)->data_type->is_volatile)
 		*expr = EXPR_ARGS(E_CONST_REMOVE, *expr);
 }
 
@@ -128,7 +129,7 @@ static struct type *calculate_type(struct expr *expr) {
 		struct type *callee_type = expr->call.callee->data_type;
 		if (callee_type->type == TY_POINTER &&
 			callee_type->children[0]->type == TY_FUNCTION)
-			return type_deref(callee_type)->children[0];
+			return type_remove_qualifications(type_deref(callee_type)->children[0]);
 		else
 			ICE("Can't call type %s\n", dbg_type(callee_type));
 	}
@@ -147,16 +148,21 @@ static struct type *calculate_type(struct expr *expr) {
 
 	case E_POINTER_ADD:
 	case E_POINTER_SUB:
+		return expr->args[0]->data_type;
+
 	case E_ASSIGNMENT:
 	case E_ASSIGNMENT_OP:
 	case E_ASSIGNMENT_POINTER:
-		return expr->args[0]->data_type;
+		return type_remove_qualifications(expr->args[0]->data_type);
 
 	case E_CAST:
 		return expr->cast.target;
 
-	case E_DOT_OPERATOR:
-		return type_select(expr->member.lhs->data_type, expr->member.member_idx);
+	case E_DOT_OPERATOR: {
+		struct type *lhs_type = expr->member.lhs->data_type;
+		return type_qualify(type_select(lhs_type, expr->member.member_idx),
+							lhs_type->is_const, lhs_type->is_volatile);
+	}
 
 	case E_CONDITIONAL:
 		assert(expr->args[1]->data_type == expr->args[2]->data_type);
@@ -180,7 +186,7 @@ static struct type *calculate_type(struct expr *expr) {
 		return expr->args[1]->data_type;
 
 	case E_CONST_REMOVE:
-		return type_make_const(expr->args[0]->data_type, 0);
+		return type_remove_qualifications(expr->args[0]->data_type);
 
 	case E_SYMBOL:
 		switch (expr->symbol->type) {
@@ -227,7 +233,32 @@ static const int does_integer_conversion[E_NUM_TYPES] = {
 static int is_null_pointer_constant(struct expr *expr) {
 	struct constant *c = expression_to_constant(expr);
 
-	return c && c->type == CONSTANT_TYPE && constant_is_zero(c);
+	if (!c || c->type != CONSTANT_TYPE || !constant_is_zero(c))
+		return 0;
+
+	// An integer constant expression, or one cast to void *.
+	if (c->data_type == type_pointer(type_simple(ST_VOID)))
+		return expr->is_integer_cast;
+
+	return type_is_integer(c->data_type);
+}
+
+// The qualifiers of an array are those of its elements.
+static struct type *type_unqualified_pointee(struct type *pointer) {
+	struct type *type = type_deref(pointer);
+
+	if (!type_is_array(type))
+		return type_remove_qualifications(type);
+
+	struct type params = *type;
+	struct type *element = type_unqualified_pointee(type_pointer(type->children[0]));
+	return type_create(&params, &element);
+}
+
+static struct type *type_with_qualifiers_of(struct type *type, struct type *qualified) {
+	while (type_is_array(qualified))
+		qualified = qualified->children[0];
+	return type_qualify(type, qualified->is_const, qualified->is_volatile);
 }
 
 static void cast_conditional(struct expr *expr) {
@@ -240,26 +271,28 @@ static void cast_conditional(struct expr *expr) {
 	if (a == b)
 		return;
 
-	if (type_is_pointer(a) && type_is_pointer(b)) {
-		struct type *composite;
-		if (type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID))
-			expr->args[1] = expression_cast(expr->args[1], b);
-		else if (type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID))
-			expr->args[2] = expression_cast(expr->args[2], a);
-		else if ((composite = type_make_composite(type_remove_qualifications(type_deref(a)),
-												  type_remove_qualifications(type_deref(b))))) {
-			composite = type_pointer(composite);
-			expr->args[2] = expression_cast(expr->args[2], composite);
-			expr->args[1] = expression_cast(expr->args[1], composite);
-		} else {
-			ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
-				  strdup(dbg_type(a)),
-				  strdup(dbg_type(b)));
-		}
-	} else if (type_is_pointer(a) && is_null_pointer_constant(expr->args[2])) {
+	if (type_is_pointer(a) && is_null_pointer_constant(expr->args[2])) {
 		expr->args[2] = expression_cast(expr->args[2], a);
 	} else if (type_is_pointer(b) && is_null_pointer_constant(expr->args[1])) {
 		expr->args[1] = expression_cast(expr->args[1], b);
+	} else if (type_is_pointer(a) && type_is_pointer(b)) {
+		struct type *lhs = type_unqualified_pointee(a), *rhs = type_unqualified_pointee(b);
+		struct type *composite = type_make_composite(lhs, rhs);
+
+		if (type_is_simple(lhs, ST_VOID) || type_is_simple(rhs, ST_VOID))
+			composite = type_simple(ST_VOID);
+
+		if (!composite)
+			ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
+				  strdup(dbg_type(a)),
+				  strdup(dbg_type(b)));
+
+		// The result points to a type with the qualifiers of both.
+		composite = type_with_qualifiers_of(composite, type_deref(a));
+		composite = type_with_qualifiers_of(composite, type_deref(b));
+		composite = type_pointer(composite);
+		expr->args[2] = expression_cast(expr->args[2], composite);
+		expr->args[1] = expression_cast(expr->args[1], composite);
 	} else if (type_is_arithmetic(a) &&
 			   type_is_arithmetic(b)) {
 		convert_arithmetic(&expr->args[1], &expr->args[2]);
@@ -514,6 +547,38 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+// The operand of sizeof or _Alignof: a parenthesized type name or a
+// unary expression, which may start with a compound literal.
+static struct type *parse_operand_type(void) {
+	struct expr *operand = NULL;
+	struct token t = *T0;
+
+	if (TACCEPT(T_LPAR)) {
+		struct type *type = parse_type_name();
+		if (type) {
+			TEXPECT(T_RPAR);
+			if (T0->type != T_LBRACE)
+				return type;
+
+			struct initializer init = parse_initializer(&type);
+			operand = parse_pratt_with_lhs(PREFIX_PREC, expr_new((struct expr) {
+						.type = E_COMPOUND_LITERAL,
+						.compound_literal = { type, init }
+					}));
+		} else {
+			t_push(t);
+		}
+	}
+
+	if (!operand)
+		operand = parse_pratt(PREFIX_PREC);
+
+	if (!operand)
+		ERROR(T0->pos, "Expected expression");
+
+	return operand->data_type;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -530,7 +595,11 @@ static struct expr *parse_prefix(void) {
 				struct expr *rhs = parse_pratt(PREFIX_PREC);
 				if (!rhs)
 					ERROR(T0->pos, "Expected expression");
-				return expression_cast(rhs, cast_type);
+
+				struct expr *cast = expression_cast(rhs, cast_type);
+				if (cast != rhs)
+					cast->is_integer_cast = type_is_integer(rhs->data_type);
+				return cast;
 			}
 		} else {
 			struct expr *expr = parse_pratt(0);
@@ -562,37 +631,9 @@ static struct expr *parse_prefix(void) {
 			ERROR(pos, "Taking address of register variable is not allowed.");
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
 	} else if (TACCEPT(T_KSIZEOF)) {
-		struct type *type = NULL;
-		struct token t = *T0;
-		if (TACCEPT(T_LPAR)) {
-			type = parse_type_name();
-			if (type) {
-				TEXPECT(T_RPAR);
-			} else {
-				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
-			} 
-		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
-		}
-
-		return type_sizeof(type);
+		return type_sizeof(parse_operand_type());
 	} else if (TACCEPT(T_KALIGNOF)) {
-		struct type *type = NULL;
-		struct token t = *T0;
-		if (TACCEPT(T_LPAR)) {
-			type = parse_type_name();
-			if (type) {
-				TEXPECT(T_RPAR);
-			} else {
-				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
-			}
-		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
-		}
-
-		return type_alignof(type);
+		return type_alignof(parse_operand_type());
 	} else if (T0->type == T_IDENT) {
 		struct symbol_identifier *sym = symbols_get_identifier(T0->str);
 
@@ -671,16 +712,15 @@ static struct expr *parse_prefix(void) {
 			ERROR(T0->pos, "Expected expression.");
 
 		decay_array(&expr);
-		struct type *match_type = type_make_const(expr->data_type, 0);
+		struct type *match_type = type_remove_qualifications(expr->data_type);
 
 		struct expr *res = NULL;
-		int res_is_default = 0;
+		struct expr *default_res = NULL;
 
 		while (TACCEPT(T_COMMA)) {
 			int default_ = 0;
 			struct type *type = NULL;
 			if (TACCEPT(T_KDEFAULT)) {
-				res_is_default = 1;
 				default_ = 1;
 			} else {
 				type = parse_type_name();
@@ -688,11 +728,12 @@ static struct expr *parse_prefix(void) {
 			TEXPECT(T_COLON);
 			struct expr *rhs = parse_assignment_expression();
 			if (default_) {
-				if (!res)
-					res = rhs;
+				if (default_res)
+					ERROR(T0->pos, "More than one default in _Generic association list");
+				default_res = rhs;
 			} else {
-				if (type == match_type) {
-					if (res && !res_is_default)
+				if (type_make_composite(type, match_type)) {
+					if (res)
 						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
 							  strdup(dbg_type(type)));
 					res = rhs;
@@ -700,6 +741,9 @@ static struct expr *parse_prefix(void) {
 			}
 		}
 
+		if (!res)
+			res = default_res;
+
 		if (!res)
 			ERROR(T0->pos, "No type matched the expresison in _Generic");
 
@@ -972,11 +1016,9 @@ int evaluate_constant_expression(struct expr *expr,
 			if (bit_size != -1)
 				return 0;
 
-			struct type *child_type = type_select(lhs.data_type, expr->member.member_idx);
-
 			*constant = lhs;
 			constant->label.offset += offset;
-			constant->data_type = child_type;
+			constant->data_type = expr->data_type;
 
 			return 1;
 		}
@@ -1074,6 +1116,7 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[0], &c))
 			return 0;
 		*constant = c;
+		constant->data_type = expr->data_type;
 	} break;
 
 	default:
@@ -1083,6 +1126,7 @@ int evaluate_constant_expression(struct expr *expr,
 }
 
 struct expr *expression_cast(struct expr *expr, struct type *type) {
+	type = type_remove_qualifications(type);
 	decay_array(&expr);
 	return (expr->data_type == type) ? expr :
 		expr_new((struct expr) {
diff --git a/src/parser/expression.h b/src/parser/expression.h
index f1d8af4..b504ee4 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -162,6 +162,8 @@ struct expr {
 
 	struct type *data_type;
 
+	int is_integer_cast; // An explicit cast of an integer.
+
 	struct position pos;
 };
 
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 60e70b8..fe43690 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -163,7 +163,8 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 }
 
 struct evaluated_expression evaluated_expression_cast(struct evaluated_expression *operand, struct type *resulting_type) {
-	if (operand->data_type == resulting_type)
+	resulting_type = type_remove_qualifications(resulting_type);
+	if (type_remove_qualifications(operand->data_type) == resulting_type)
 		return *operand;
 	if (type_is_simple(resulting_type, ST_VOID)) {
 		return (struct evaluated_expression) {
@@ -207,7 +208,7 @@ static struct node *assigned_value(struct evaluated_expression *lhs, struct node
 }
 
 static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_expression *rhs) {
-	assert(lhs->data_type == rhs->data_type);
+	assert(type_remove_qualifications(lhs->data_type) == type_remove_qualifications(rhs->data_type));
 	if (calculate_size(rhs->data_type) <= 8) { // If fits into variable, take shortcut.
 		struct node *rhs_var = evaluated_expression_to_var(rhs);
 		assign_to_ee(lhs, rhs_var);
diff --git a/src/types.c b/src/types.c
index c573260..16d330d 100644
--- a/src/types.c
+++ b/src/types.c
@@ -18,7 +18,8 @@ static int compare_types(struct type *a, struct type **a_children,
 	if (a->n != b->n)
 		return 0;
 
-	if (a->is_const != b->is_const)
+	if (a->is_const != b->is_const ||
+		a->is_volatile != b->is_volatile)
 		return 0;
 
 	switch(a->type) {
@@ -71,7 +72,7 @@ static int compare_types(struct type *a, struct type **a_children,
 static uint32_t type_hash(struct type *type, struct type **children) {
 	uint32_t hash = 0;
 
-	hash ^= hash32(type->type) ^ hash32(type->is_const);
+	hash ^= hash32(type->type) ^ hash32(type->is_const + 2 * type->is_volatile);
 
 	switch (type->type) {
 	case TY_SIMPLE:
@@ -162,15 +163,26 @@ struct type *type_deref(struct type *type) {
 	return type->children[0];
 }
 
-struct type *type_make_const(struct type *type, int is_const) {
+// Adds qualifiers. The qualifiers of an array are those of its elements.
+struct type *type_qualify(struct type *type, int is_const, int is_volatile) {
 	struct type params = *type;
-	params.is_const = is_const;
+
+	if (!is_const && !is_volatile)
+		return type;
+
+	if (type_is_array(type)) {
+		struct type *element = type_qualify(type->children[0], is_const, is_volatile);
+		return type_create(&params, &element);
+	}
+
+	params.is_const = params.is_const || is_const;
+	params.is_volatile = params.is_volatile || is_volatile;
 	return type_create(&params, type->children);
 }
 
 struct type *type_remove_qualifications(struct type *type) {
 	struct type params = *type;
-	params.is_const = 0;
+	params.is_const = params.is_volatile = 0;
 	return type_create(&params, type->children);
 }
 
@@ -214,13 +226,9 @@ int type_search_member(struct type *type, struct string_view name,
 
 // Make arrays into pointers, and functions into function pointers.
 struct type *type_adjust_parameter(struct type *type) {
-	if (type->type == TY_ARRAY ||
-		type->type == TY_INCOMPLETE_ARRAY ||
-		type->type == TY_VARIABLE_LENGTH_ARRAY) {
-		struct type *ptr = type_pointer(type->children[0]);
-		if (type->is_const)
-			ptr = type_make_const(ptr, 1);
-		return ptr;
+	if (type_is_array(type)) {
+		// Qualifiers between the brackets are those of the pointer.
+		return type_qualify(type_pointer(type->children[0]), type->is_const, type->is_volatile);
 	} else if (type->type == TY_FUNCTION) {
 		return type_pointer(type);
 	} else
@@ -294,6 +302,12 @@ int type_is_arithmetic(struct type *type) {
 		type_is_floating(type);
 }
 
+int type_is_array(struct type *type) {
+	return type->type == TY_ARRAY ||
+		type->type == TY_INCOMPLETE_ARRAY ||
+		type->type == TY_VARIABLE_LENGTH_ARRAY;
+}
+
 int type_is_pointer(struct type *type) {
 	return type->type == TY_POINTER;
 }
@@ -436,29 +450,64 @@ struct type *type_make_composite(struct type *a, struct type *b) {
 	if (a == b)
 		return a;
 
-	if (a->type == TY_ARRAY && b->type == TY_INCOMPLETE_ARRAY) {
-		return a;
-	} else if (b->type == TY_ARRAY && a->type == TY_INCOMPLETE_ARRAY) {
-		return b;
+	if (a->is_const != b->is_const ||
+		a->is_volatile != b->is_volatile)
+		return NULL;
+
+	if (type_is_array(a) && type_is_array(b)) {
+		struct type *element = type_make_composite(a->children[0], b->children[0]);
+
+		if (!element ||
+			(a->type == TY_ARRAY && b->type == TY_ARRAY && a->array.length != b->array.length))
+			return NULL;
+
+		// The size is taken from the type that knows the most about it.
+		if (b->type == TY_ARRAY || a->type == TY_INCOMPLETE_ARRAY)
+			a = b;
+
+		struct type params = *a;
+		return type_create(&params, &element);
 	}
 
 	if (a->type != b->type)
 		return NULL;
 
 	switch (a->type) {
-	case TY_FUNCTION:
-		if (a->function.is_variadic && a->n == 1) {
-			return b;
-		} else if (b->function.is_variadic && b->n == 1) {
-			return a;
+	case TY_FUNCTION: {
+		struct type *return_type = type_make_composite(a->children[0], b->children[0]);
+		if (!return_type)
+			return NULL;
+
+		// A function without a prototype.
+		if (b->function.is_variadic && b->n == 1) {
+			struct type *tmp = a;
+			a = b;
+			b = tmp;
 		}
-		break;
 
-	case TY_ARRAY:
-		break;
+		struct type params = *b;
+		struct type *children[b->n];
+		children[0] = return_type;
+
+		int has_prototype = !(a->function.is_variadic && a->n == 1);
+		if (has_prototype && (a->n != b->n || a->function.is_variadic != b->function.is_variadic))
+			return NULL;
 
-	default:;
+		for (int i = 1; i < b->n; i++) {
+			children[i] = has_prototype ? type_make_composite(a->children[i], b->children[i]) : b->children[i];
+			if (!children[i])
+				return NULL;
+		}
+
+		return type_create(&params, children);
+	}
+
+	case TY_POINTER: {
+		struct type *pointee = type_make_composite(a->children[0], b->children[0]);
+		return pointee ? type_qualify(type_pointer(pointee), a->is_const, a->is_volatile) : NULL;
 	}
 
-	return NULL;
+	default:
+		return NULL;
+	}
 }
diff --git a/src/types.h b/src/types.h
index f34f386..4a39199 100644
--- a/src/types.h
+++ b/src/types.h
@@ -87,7 +87,7 @@ struct type {
 		struct struct_data *struct_data;
 	};
 
-	int is_const;
+	int is_const, is_volatile;
 
 	struct type *next; // Used in hash-map.
 
@@ -136,7 +136,8 @@ struct type *type_pointer(struct type *type);
 struct type *type_array(struct type *type, int length);
 struct type *type_deref(struct type *type);
 struct type *type_struct(struct struct_data *struct_data);
-struct type *type_make_const(struct type *type, int is_const);
+struct type *type_qualify(struct type *type, int is_const, int is_volatile);
+int type_is_array(struct type *type);
 struct type *type_adjust_parameter(struct type *type);
 struct type *type_remove_qualifications(struct type *type);
 
-- 
2.43.0


From f2543097270753e26c94eb094ae778e263e5c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 53/66] fix: scopes of tags and parenthesized declarators

A tag is declared before the members of its struct, and by "struct tag;"
even if an outer scope has one. Parentheses around a declared name may
hide a typedef name, and enums can not be defined twice.

property=C21
---
 src/parser/declaration.c | 96 ++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 52 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 1e582f5..d449813 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -95,7 +95,8 @@ struct type_ast {
 	struct type_ast *parent;
 };
 
-struct type_ast *parse_declarator(int *was_abstract, int *has_symbols);
+// Typedef names in parentheses start a parameter list, unless the declarator has to be concrete.
+struct type_ast *parse_declarator(int concrete, int *was_abstract, int *has_symbols);
 struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qualifiers *tq, struct type_ast *ast, struct string_view *name, int allow_tq_in_array);
 
 int parse_struct(struct type_specifiers *ts);
@@ -317,15 +318,17 @@ int parse_enum(struct type_specifiers *ts) {
 			def = symbols_add_struct(name);
 			def->type = STRUCT_ENUM;
 			data = register_enum();
+			data->is_complete = 0;
 			def->enum_data = data;
 		} else {
 			data = def->enum_data;
 			if (data->is_complete)
-				ERROR(T0->pos, "Redeclaring struct/union");
+				ERROR(T0->pos, "Redeclaring enum %.*s", name.len, name.str);
 		}
 
 		*data = (struct enum_data) {
-			.name = name
+			.name = name,
+			.is_complete = 1
 		};
 
 		ts->data_type = type_simple(ST_INT);
@@ -351,6 +354,29 @@ int parse_enum(struct type_specifiers *ts) {
 	return 1;
 }
 
+// Finds the struct or union with a tag, or declares it in the current scope. An outer
+// declaration of the tag is hidden if the struct is declared in this scope.
+static struct struct_data *get_struct_tag(struct string_view name, int is_union, int in_this_scope) {
+	struct symbol_struct *def = in_this_scope ?
+		symbols_get_struct_in_current_scope(name) : symbols_get_struct(name);
+
+	if (!def) {
+		def = symbols_add_struct(name);
+		def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
+		def->struct_data = register_struct();
+		*def->struct_data = (struct struct_data) {
+			.name = name,
+			.is_complete = 0,
+			.is_union = is_union
+		};
+	}
+
+	if (def->type != (is_union ? STRUCT_UNION : STRUCT_STRUCT))
+		ERROR(T0->pos, "%.*s Previously not a %s", name.len, name.str, is_union ? "union" : "struct");
+
+	return def->struct_data;
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -371,6 +397,8 @@ int parse_struct(struct type_specifiers *ts) {
 	}
 
 	if (TACCEPT(T_LBRACE)) {
+		// The tag can be used by the members.
+		struct struct_data *data = get_struct_tag(name, is_union, 1);
 		int fields_size = 0, fields_cap = 0;
 		struct field *fields = NULL;
 
@@ -386,7 +414,7 @@ int parse_struct(struct type_specifiers *ts) {
 				int bitfield = -1;
 				int needs_bitfield = 0;
 
-				if ((ast = parse_declarator(&was_abstract, 0))) {
+				if ((ast = parse_declarator(1, &was_abstract, 0))) {
 					found_one = 1;
 					if (was_abstract)
 						ERROR(T0->pos, "Can't have abstract in struct declaration");
@@ -442,28 +470,8 @@ int parse_struct(struct type_specifiers *ts) {
 
 		accept_attribute(&is_packed);
 
-		struct struct_data *data = NULL;
-		struct symbol_struct *def = symbols_get_struct_in_current_scope(name);
-
-		if (is_union) {
-			if (def && def->type != STRUCT_UNION)
-				ERROR(T0->pos, "Name not declared as union.");
-		} else {
-			if (def && def->type != STRUCT_STRUCT)
-				ERROR(T0->pos, "Name not declared as struct.");
-		}
-
-		if (!def) {
-			def = symbols_add_struct(name);
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-			data = register_struct();
-			def->struct_data = data;
-		} else {
-			data = def->struct_data;
-			if (data->is_complete) {
-				ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
-			}
-		}
+		if (data->is_complete)
+			ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
 
 		*data = (struct struct_data) {
 			.n = fields_size,
@@ -490,28 +498,12 @@ int parse_struct(struct type_specifiers *ts) {
 
 		return 1;
 	} else {
-		struct symbol_struct *def = symbols_get_struct(name);
-
-		if(!def) {
-			def = symbols_add_struct(name);
-
-			def->struct_data = register_struct();
-			*def->struct_data = (struct struct_data) {
-				.name = name,
-				.is_complete = 0,
-			};
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-		}
-
-		if (!is_union && def->type != STRUCT_STRUCT) {
-			ERROR(T0->pos, "%.*s Previously not a struct", name.len, name.str);
-		} else if (is_union && def->type != STRUCT_UNION) {
-			ERROR(T0->pos, "Previously not a union");
-		}
+		// "struct tag;" always declares the tag in the current scope.
+		struct struct_data *data = get_struct_tag(name, is_union, T0->type == T_SEMI_COLON);
 
 		struct type params = {
 			.type = TY_STRUCT,
-			.struct_data = def->struct_data,
+			.struct_data = data,
 			.n = 0
 		};
 
@@ -741,7 +733,7 @@ static struct parameter_list parse_parameter_list(void) {
 	int first = 1;
 	while (parse_specifiers(&s.ts, &s.scs, &s.tq, &s.fs, &s.as)) {
 		int was_abstract = 10;
-		struct type_ast *ast = parse_declarator(&was_abstract, 0);
+		struct type_ast *ast = parse_declarator(0, &was_abstract, 0);
 
 		if (first) {
 			ret.abstract = was_abstract;
@@ -818,7 +810,7 @@ static struct type_ast *parse_function_parameters(struct type_ast *parent, int *
 		});
 }
 
-struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
+struct type_ast *parse_declarator(int concrete, int *was_abstract, int *has_symbols) {
 	struct type_ast *ast = NULL;
 	if (T0->type == T_IDENT) {
 		ast = type_ast_new((struct type_ast){
@@ -829,8 +821,8 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 			*was_abstract = 0;
 		TNEXT();
 	} else if (TACCEPT(T_LPAR)) {
-		if (!(T0->type == T_IDENT && symbols_get_typedef(T0->str)))
-			ast = parse_declarator(was_abstract, has_symbols);
+		if (concrete || !(T0->type == T_IDENT && symbols_get_typedef(T0->str)))
+			ast = parse_declarator(concrete, was_abstract, has_symbols);
 		if (!ast) {
 			*was_abstract = 1;
 			ast = type_ast_new((struct type_ast) {
@@ -849,7 +841,7 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 
 		ast = type_ast_new((struct type_ast){
 				.type = TAST_POINTER,
-				.parent = parse_declarator(was_abstract, has_symbols),
+				.parent = parse_declarator(concrete, was_abstract, has_symbols),
 				.pointer.tq = tq
 			});
 
@@ -1234,7 +1226,7 @@ struct type *parse_type_name(void) {
 		return NULL;
 
 	int was_abstract = 1;
-	struct type_ast *ast = parse_declarator(&was_abstract, 0);
+	struct type_ast *ast = parse_declarator(0, &was_abstract, 0);
 	if (!was_abstract)
 		ERROR(T0->pos, "Type name must be abstract");
 
@@ -1319,7 +1311,7 @@ static void parse_function_definition(struct specifiers *s, struct string_view n
 static int parse_init_declarator(struct specifiers s, int external, int first, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
-	struct type_ast *ast = parse_declarator(&was_abstract, &has_symbols);
+	struct type_ast *ast = parse_declarator(1, &was_abstract, &has_symbols);
 
 	if (!ast)
 		return 0;
-- 
2.43.0


From 1c915c791552fc5dfa824343f707cac5c32fb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 54/66] fix: scopes and constraints of statements

Selection and iteration statements and their substatements are blocks,
parameters share the scope of the function's body, and break, continue,
goto, case and default are rejected where they have no meaning instead
of crashing or being ignored.

property=C22
---
 src/parser/function_parser.c | 96 ++++++++++++++++++++++++++----------
 1 file changed, 71 insertions(+), 25 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8b5d6e9..8a2879d 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -8,6 +8,7 @@
 
 #include <common.h>
 #include <preprocessor/preprocessor.h>
+#include <arch/x64.h>
 #include <abi/abi.h>
 
 #include <stdio.h>
@@ -21,6 +22,12 @@ struct jump_blocks {
 	struct node *block_entry, *block_default;
 	struct node *case_control;
 	struct type *case_type; // Promoted type of the controlling expression.
+	struct switch_cases *cases;
+};
+
+struct switch_cases {
+	size_t size, cap;
+	uint64_t *values;
 };
 
 static struct function_scope {
@@ -89,9 +96,16 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 			ERROR(T0->pos, "Not currently in a switch statement");
 
 		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
-		if (!constant)
+		if (!constant || constant->type != CONSTANT_TYPE || !type_is_integer(value->data_type))
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
+		struct switch_cases *cases = jump_blocks->cases;
+		for (size_t i = 0; i < cases->size; i++) {
+			if (cases->values[i] == constant_to_u64(*constant))
+				ERROR(T0->pos, "Duplicate case value");
+		}
+		ADD_ELEMENT(cases->size, cases->cap, cases->values) = constant_to_u64(*constant);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -119,6 +133,8 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(block_default);
 		if (!jump_blocks->block_entry)
 			ERROR(T0->pos, "Not currently in a switch statement");
+		if (jump_blocks->block_default)
+			ERROR(T0->pos, "More than one default in a switch statement");
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
@@ -127,19 +143,24 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	return 0;
 }
 
-int parse_compound_statement(struct jump_blocks *jump_blocks) {
+static int parse_block(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_LBRACE))
 		return 0;
 
-	symbols_push_scope();
 	while (parse_labeled_statement(jump_blocks) ||
 		   parse_declaration(0) || parse_statement(jump_blocks));
-	symbols_pop_scope();
 
 	TEXPECT(T_RBRACE);
 	return 1;
 }
 
+int parse_compound_statement(struct jump_blocks *jump_blocks) {
+	symbols_push_scope();
+	int found = parse_block(jump_blocks);
+	symbols_pop_scope();
+	return found;
+}
+
 int parse_expression_statement(void) {
 	struct expr *expr = parse_expression();
 	if (!expr)
@@ -149,6 +170,14 @@ int parse_expression_statement(void) {
 	return 1;
 }
 
+// The substatement of a selection or iteration statement is a block.
+static void parse_substatement(struct jump_blocks *jump_blocks) {
+	symbols_push_scope();
+	if (!parse_statement(jump_blocks))
+		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+	symbols_pop_scope();
+}
+
 static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_KSWITCH))
 		return 0;
@@ -183,8 +212,13 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
+	struct switch_cases cases = { 0 };
+	new_jump_blocks.cases = &cases;
+
 	// Parse body
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
+
+	free(cases.values);
 
 	// A continue inside of the switch belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
@@ -201,7 +235,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	return 1;
 }
 
-int parse_selection_statement(struct jump_blocks *jump_blocks) {
+static int parse_if(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KIF)) {
 		TEXPECT(T_LPAR);
 		struct expr *expr = parse_expression();
@@ -216,14 +250,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 
 		ir_block_start(block_true);
 
-		parse_statement(jump_blocks);
+		parse_substatement(jump_blocks);
 
 		if (TACCEPT(T_KELSE)) {
 			struct node *block_end = new_block();
 			ir_goto(block_end);
 			ir_block_start(block_false);
 
-			parse_statement(jump_blocks);
+			parse_substatement(jump_blocks);
 
 			ir_goto(block_end);
 			ir_block_start(block_end);
@@ -236,14 +270,20 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 			ir_block_start(block_end);
 		}
 
-		return 1;
-	} else if (parse_switch(jump_blocks)) {
 		return 1;
 	} else {
 		return 0;
 	}
 }
 
+// Selection and iteration statements are blocks.
+int parse_selection_statement(struct jump_blocks *jump_blocks) {
+	symbols_push_scope();
+	int found = parse_if(jump_blocks) || parse_switch(jump_blocks);
+	symbols_pop_scope();
+	return found;
+}
+
 // A case or default inside of a loop belongs to the enclosing switch.
 static void leave_loop(struct jump_blocks *jump_blocks, struct jump_blocks *loop_jump_blocks) {
 	jump_blocks->block_entry = loop_jump_blocks->block_entry;
@@ -265,7 +305,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
@@ -336,7 +376,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
@@ -352,8 +392,6 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_LPAR);
 
-	symbols_push_scope();
-
 	// init:
 	// ... init stuff ...
 	// jmp control
@@ -418,24 +456,22 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
 
-	symbols_pop_scope();
 	return 1;
 }
 
 int parse_iteration_statement(struct jump_blocks *jump_blocks) {
-	if (parse_for_statement(jump_blocks) ||
-			   parse_do_while_statement(jump_blocks) ||
-			   parse_while_statement(jump_blocks)) {
-		return 1;
-	} else {
-		return 0;
-	}
+	symbols_push_scope();
+	int found = parse_for_statement(jump_blocks) ||
+		parse_do_while_statement(jump_blocks) ||
+		parse_while_statement(jump_blocks);
+	symbols_pop_scope();
+	return found;
 }
 
 struct type *current_ret_val = NULL;
@@ -443,7 +479,7 @@ struct type *current_ret_val = NULL;
 int parse_jump_statement(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KGOTO)) {
 		struct string_view label = T0->str;
-		TNEXT();
+		TEXPECT(T_IDENT);
 		TEXPECT(T_SEMI_COLON);
 		for (unsigned i = 0; i < function_scope.size; i++) {
 			if (sv_cmp(label, function_scope.labels[i].label)) {
@@ -468,6 +504,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "continue outside of a loop");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -477,6 +515,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "break outside of a loop or switch");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -541,7 +581,13 @@ void parse_function(struct symbol_identifier *symbol, struct string_view name, s
 	type_evaluate_vla(type);
 
 	struct jump_blocks jump_blocks = { 0 };
-	parse_compound_statement(&jump_blocks);
+	parse_block(&jump_blocks);
+
+	for (unsigned i = 0; i < function_scope.size; i++) {
+		if (!function_scope.labels[i].used)
+			ERROR(T0->pos, "Label %.*s is not defined",
+				  function_scope.labels[i].label.len, function_scope.labels[i].label.str);
+	}
 
 	if (sv_string_cmp(name, "main")) {
 		struct node *b = get_current_block();
-- 
2.43.0


From 0affb49cf2a3f133f78e7ed48d2281658d9f8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:21 +0000
Subject: [PATCH 55/66] fix: diagnose violations of the constraints on
 operands, declarations and constants

property=C22
---
 src/arch/x64.c                    |  23 +-
 src/codegen/rodata.c              |   2 +
 src/escape_sequence.c             |   3 +
 src/parser/declaration.c          | 252 +++++++++++++++------
 src/parser/expression.c           | 350 ++++++++++++++++++++++++------
 src/parser/expression.h           |   3 +
 src/parser/expression_to_ir.c     |   2 +
 src/parser/function_parser.c      |   9 +
 src/preprocessor/directives.c     |   1 +
 src/preprocessor/macro_expander.c |  14 ++
 src/preprocessor/macro_expander.h |   1 +
 src/preprocessor/string_concat.c  |   3 +
 src/types.c                       |  29 ++-
 src/types.h                       |   3 +-
 14 files changed, 559 insertions(+), 136 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 483424b..9a298ff 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -325,16 +325,22 @@ static struct constant floating_point_constant_from_string(struct string_view sv
 	char suffix = str[strlen(str) - 1];
 
 	struct constant res = { .type = CONSTANT_TYPE };
+	char *end = NULL;
+	int is_hex = str[0] == '0' && (str[1] == 'x' || str[1] == 'X');
 	if (suffix == 'f' || suffix == 'F') {
 		res.data_type = type_simple(ST_FLOAT);
-		res.float_d = strtof(str, NULL);
+		res.float_d = strtof(str, &end);
+		end++; // Suffix.
 	} else if (suffix == 'l' || suffix == 'L') {
 		ICE("Constants of type long double is not supported by this compiler. %s", str);
 	} else {
 		res.data_type = type_simple(ST_DOUBLE);
-		res.double_d = strtod(str, NULL);
+		res.double_d = strtod(str, &end);
 	}
 
+	if (end != str + strlen(str) || (is_hex && !strpbrk(str, "pP")))
+		ICE("Invalid format of floating constant: %s", str);
+
 	return res;
 }
 
@@ -365,6 +371,7 @@ static struct constant integer_constant_from_string(struct string_view str) {
 	if (base == BASE_HEXADECIMAL || base == BASE_BINARY)
 		start += 2;
 
+	int first_digit = start;
 	for (; start < str.len; start++) {
 		int binary_digit = (str.str[start] >= '0' && str.str[start] <= '1');
 		int octal_digit = (str.str[start] >= '0' && str.str[start] <= '7');
@@ -398,25 +405,37 @@ static struct constant integer_constant_from_string(struct string_view str) {
 			parsed += str.str[start] - 'A' + 10;
 	}
 
+	if (start == first_digit)
+		ICE("Invalid format of integer constant: %.*s", str.len, str.str);
+
 	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_OCTAL || base == BASE_BINARY;
 	int allow_signed = 1;
 	int allow_int = 1;
 	int allow_long = 1;
 	int allow_llong = 1;
 
+	int has_u = 0, has_l = 0;
 	while (start < str.len) {
+		if (has_l && !(str.str[start] == 'u' || str.str[start] == 'U'))
+			ICE("Invalid format of integer constant: %.*s", str.len, str.str);
+		if (has_u && (str.str[start] == 'u' || str.str[start] == 'U'))
+			ICE("Invalid format of integer constant: %.*s", str.len, str.str);
+
 		if (start + 1 < str.len &&
 			((str.str[start] == 'l' && str.str[start + 1] == 'l') ||
 			 (str.str[start] == 'L' && str.str[start + 1] == 'L'))) {
 			start += 2;
 			allow_int = allow_long = 0;
+			has_l = 1;
 		} else if (str.str[start] == 'l' || str.str[start] == 'L') {
 			start += 1;
 			allow_int = 0;
+			has_l = 1;
 		} else if (str.str[start] == 'u' || str.str[start] == 'U') {
 			start += 1;
 			allow_unsigned = 1;
 			allow_signed = 0;
+			has_u = 1;
 		} else {
 			ICE("Invalid format of integer constant: %.*s", str.len, str.str);
 		}
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index ce41c59..e92be45 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -160,6 +160,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR(init->expr->pos, "Initializer is not constant");
 		}
 	} break;
 	case INIT_BRACE:
diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index dc9911f..51a06e1 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -23,6 +23,9 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		*out = result;
 	} else if (*s == 'x') {
 		s++;
+		if (n < 3 || !is_hexadecimal(*s))
+			ICE("\\x without hexadecimal digits");
+
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
 			result *= 16;
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d449813..b4a1e92 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -144,14 +144,11 @@ static int parse_specifier(struct type_specifiers *ts,
 			return 1;
 		}
 
-		if (parse_struct(ts)) {
+		if (T0->type == T_KSTRUCT || T0->type == T_KUNION || T0->type == T_KENUM) {
+			if (ts->data_type)
+				ERROR(T0->pos, "More than one type in declaration");
 			*got_ts = 1;
-			return 1;
-		}
-
-		if (parse_enum(ts)) {
-			*got_ts = 1;
-			return 1;
+			return parse_struct(ts) || parse_enum(ts);
 		}
 
 		if (TACCEPT(T_KENUM)) {
@@ -176,6 +173,14 @@ static int parse_specifier(struct type_specifiers *ts,
 		}
 	}
 	if (scs) {
+		struct position pos = T0->pos;
+		struct storage_class_specifiers prev = *scs;
+		int prev_n = prev.typedef_n + prev.extern_n + prev.static_n + prev.auto_n + prev.register_n;
+
+		if (prev_n && (T0->type == T_KTYPEDEF || T0->type == T_KEXTERN || T0->type == T_KSTATIC ||
+					   T0->type == T_KAUTO || T0->type == T_KREGISTER))
+			ERROR(pos, "More than one storage-class specifier");
+
 		ACCEPT_INCREMENT(T_KTYPEDEF, scs->typedef_n);
 		ACCEPT_INCREMENT(T_KEXTERN, scs->extern_n);
 		ACCEPT_INCREMENT(T_KSTATIC, scs->static_n);
@@ -201,15 +206,20 @@ static int parse_specifier(struct type_specifiers *ts,
 			if (type)
 				length_expr = type_alignof(type);
 			else
-				length_expr = parse_expression();
+				length_expr = parse_assignment_expression();
+
+			TEXPECT(T_RPAR);
+
+			if (!length_expr || !type_is_integer(length_expr->data_type))
+				ERROR(T0->pos, "_Alignas must have an integer or type as argument.");
 
 			length_expr = expression_cast(length_expr, type_simple(ST_ULLONG));
 
-			TEXPECT(T_RPAR);
 			struct constant *constant = expression_to_constant(length_expr);
-			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
-				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
-			}
+			if (!constant || constant->type != CONSTANT_TYPE)
+				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument.");
+			if (constant->uint_d & (constant->uint_d - 1))
+				ERROR(T0->pos, "Alignment is not a power of two.");
 			as->alignment = MAX(as->alignment, (int)constant->uint_d);
 			return 1;
 		}
@@ -258,8 +268,11 @@ static int parse_enumerator(struct constant *prev, int first) {
 
 		val = *ret;
 
+		if (val.type != CONSTANT_TYPE || !type_is_integer(val.data_type))
+			ERROR(T0->pos, "Enumerator must be an integer");
+
 		// Enumerators have type int.
-		if (val.type == CONSTANT_TYPE && type_is_integer(val.data_type)) {
+		{
 			struct constant as_int = constant_cast(val, type_simple(ENUM_TYPE));
 			if (constant_to_u64(as_int) == constant_to_u64(val))
 				val = as_int;
@@ -302,6 +315,10 @@ int parse_enum(struct type_specifiers *ts) {
 	if (TACCEPT(T_LBRACE)) {
 		int first = 1;
 		struct constant prev;
+
+		if (T0->type != T_IDENT)
+			ERROR(T0->pos, "Expected enumerator, got %s", dbg_token(T0));
+
 		while (parse_enumerator(&prev, first)) {
 			first = 0;
 		}
@@ -377,6 +394,33 @@ static struct struct_data *get_struct_tag(struct string_view name, int is_union,
 	return def->struct_data;
 }
 
+static int is_member_of(struct struct_data *data, struct string_view name) {
+	int n = 0;
+	for (int i = 0; i < data->n; i++) {
+		struct field *field = &data->fields[i];
+		if (field->name.len)
+			n += sv_cmp(field->name, name);
+		else if (field->type->type == TY_STRUCT)
+			n += is_member_of(field->type->struct_data, name);
+	}
+	return n;
+}
+
+// All members, including those of anonymous structs, have distinct names.
+static void check_member_names(struct struct_data *data, struct struct_data *top) {
+	for (int i = 0; i < data->n; i++) {
+		struct field *field = &data->fields[i];
+		if (field->name.len) {
+			if (is_member_of(top, field->name) != 1)
+				ERROR(T0->pos, "Duplicate member %.*s", field->name.len, field->name.str);
+		} else if (field->type->type == TY_STRUCT) {
+			check_member_names(field->type->struct_data, top);
+		}
+	}
+}
+
+static int parse_static_assert(void);
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -404,7 +448,11 @@ int parse_struct(struct type_specifiers *ts) {
 
 		struct specifiers s;
 
-		while (parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as)) {
+		while (T0->type == T_KSTATIC_ASSERT ||
+			   parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as)) {
+			if (parse_static_assert())
+				continue;
+
 			int found_one = 0;
 			struct type_ast *ast = NULL;
 			int was_abstract = 1;
@@ -420,6 +468,15 @@ int parse_struct(struct type_specifiers *ts) {
 						ERROR(T0->pos, "Can't have abstract in struct declaration");
 
 					type = ast_to_type(&s.ts, &s.tq, ast, &name, 0);
+
+					for (int i = 0; i < fields_size; i++) {
+						if (fields[i].type->type == TY_INCOMPLETE_ARRAY)
+							ERROR(T0->pos, "Only the last member can be a flexible array");
+					}
+
+					int is_flexible = type->type == TY_INCOMPLETE_ARRAY && fields_size && !is_union;
+					if (!type_is_complete(type) && !is_flexible)
+						ERROR(T0->pos, "Member %.*s has incomplete type", name.len, name.str);
 				} else {
 					needs_bitfield = 1;
 				}
@@ -427,17 +484,27 @@ int parse_struct(struct type_specifiers *ts) {
 				if (TACCEPT(T_COLON)) {
 					found_one = 1; // Bit-fields can't declare anonymous structs.
 
-					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
+					if (!type)
+						type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
+					if (!type_is_integer(type))
+						ERROR(T0->pos, "Bit-field has invalid type %s", dbg_type(type));
+
 					struct expr *bitfield_expr = parse_assignment_expression();
+					if (!bitfield_expr || !type_is_integer(bitfield_expr->data_type))
+						ERROR(T0->pos, "Width of bit-field must be an integer");
+
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
-					if (!c)
+					if (!c || c->type != CONSTANT_TYPE)
 						ERROR(T0->pos, "Bit-field must be a constant expression");
-					if (!type_is_simple(c->data_type, ST_INT))
-						ERROR(T0->pos, "Bit-field must an integer");
-					assert(c->type == CONSTANT_TYPE);
 					bitfield = c->int_d;
+
+					int max_width = type_is_simple(type, ST_BOOL) ? 1 : calculate_size(type) * 8;
+					if (bitfield < 0 || bitfield > max_width || (bitfield == 0 && name.len))
+						ERROR(T0->pos, "Invalid width of bit-field: %d", bitfield);
 				} else if (needs_bitfield) {
+					if (found_one)
+						ERROR(T0->pos, "Expected declarator, got %s", dbg_token(T0));
 					break;
 				}
 
@@ -448,13 +515,14 @@ int parse_struct(struct type_specifiers *ts) {
 					.alignment = s.as.alignment
 				};
 
-				TACCEPT(T_COMMA);
+				if (!TACCEPT(T_COMMA))
+					break;
 			}
 
 			TEXPECT(T_SEMI_COLON);
 
 			if (!found_one) {
-				if (s.ts.data_type->type == TY_STRUCT) {
+				if (s.ts.data_type && s.ts.data_type->type == TY_STRUCT) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
@@ -485,6 +553,7 @@ int parse_struct(struct type_specifiers *ts) {
 			.name = name
 		};
 
+		check_member_names(data, data);
 		calculate_offsets(data);
 		type_remove_unnamed(data);
 
@@ -548,6 +617,9 @@ static struct type_ast *type_ast_new(struct type_ast ast) {
 }
 
 static struct type *specifiers_to_type(const struct type_specifiers *ts) {
+	if (ts->data_type && ts->specifiers)
+		ERROR(ts->pos, "More than one type in declaration");
+
 #define SPEC(A, B) if (ts->specifiers == (B)) return type_simple(A);
 	SPEC(ST_VOID, TSF_VOID);
 	SPEC(ST_CHAR, TSF_CHAR);
@@ -628,6 +700,9 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			break;
 
 		case TAST_FUNCTION: {
+			if (type_is_array(type) || type->type == TY_FUNCTION)
+				ERROR(ast->pos, "Functions can't return %s", dbg_type(type));
+
 			struct type params = {
 				.type = TY_FUNCTION,
 				.function.is_variadic = ast->function.vararg,
@@ -645,6 +720,11 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 		} break;
 
 		case TAST_ARRAY: {
+			if (!type_is_complete(type))
+				ERROR(ast->pos, "Array of incomplete type %s", dbg_type(type));
+			if (ast->array.is_static && !(allow_tq_in_array && ast->parent->type == TAST_TERMINAL))
+				ERROR(ast->pos, "Invalid static in array declarator");
+
 			switch (ast->array.type) {
 			case ARR_EMPTY: {
 				struct type params = {
@@ -654,6 +734,9 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				type = type_create(&params, &type);
 			} break;
 			case ARR_EXPRESSION: {
+				if (!type_is_integer(ast->array.expr->data_type))
+					ERROR(ast->pos, "Size of array is not an integer");
+
 				struct constant *unconverted_length;
 				if ((unconverted_length = expression_to_constant(ast->array.expr)) &&
 					unconverted_length->type == CONSTANT_TYPE) {
@@ -730,11 +813,19 @@ static struct parameter_list parse_parameter_list(void) {
 	symbols_push_scope();
 
 	struct specifiers s;
-	int first = 1;
+	int first = 1, after_comma = 0;
 	while (parse_specifiers(&s.ts, &s.scs, &s.tq, &s.fs, &s.as)) {
 		int was_abstract = 10;
 		struct type_ast *ast = parse_declarator(0, &was_abstract, 0);
 
+		if (s.scs.typedef_n || s.scs.extern_n || s.scs.static_n || s.scs.auto_n || s.scs.thread_local_n)
+			ERROR(T0->pos, "Invalid storage-class specifier of parameter");
+
+		// The same as "(void)" if it comes from a typedef.
+		if (first && !ast && T0->type == T_RPAR && null_type_qualifier(&s.tq) && !s.scs.register_n &&
+			type_is_simple(specifiers_to_type(&s.ts), ST_VOID))
+			break;
+
 		if (first) {
 			ret.abstract = was_abstract;
 			first = 0;
@@ -745,6 +836,8 @@ static struct parameter_list parse_parameter_list(void) {
 		struct string_view name = { 0 };
 		struct type *type = ast_to_type(&s.ts, &s.tq, ast, &name, 1);
 		type = type_adjust_parameter(type);
+		if (type_is_simple(type, ST_VOID))
+			ERROR(T0->pos, "Parameter has type void");
 		ret.types[ret.n - 1] = type;
 
 		ret.arguments = cc_realloc(ret.arguments, ret.n * sizeof(*ret.arguments));
@@ -757,17 +850,14 @@ static struct parameter_list parse_parameter_list(void) {
 		ident->parameter.type = type;
 		ret.arguments[ret.n - 1] = ident;
 
-		if (T0->type == T_RPAR)
+		after_comma = TACCEPT(T_COMMA);
+		if (!after_comma)
 			break;
-
-		TEXPECT(T_COMMA);
 	}
 
-	if (TACCEPT(T_ELLIPSIS)) {
-		ret.vararg = 1;
-	} else {
-		ret.vararg = 0;
-	}
+	ret.vararg = after_comma;
+	if (ret.vararg)
+		TEXPECT(T_ELLIPSIS);
 
 	TEXPECT(T_RPAR);
 
@@ -870,6 +960,7 @@ struct type_ast *parse_declarator(int concrete, int *was_abstract, int *has_symb
 		if (TACCEPT(T_LBRACK)) {
 			struct type_ast arr;
 			arr.type = TAST_ARRAY;
+			arr.array.is_static = 0;
 
 			int need_expression = 0;
 			if (TACCEPT(T_KSTATIC)) {
@@ -893,7 +984,7 @@ struct type_ast *parse_declarator(int concrete, int *was_abstract, int *has_symb
 				arr.array.type = ARR_STAR;
 				TEXPECT(T_RBRACK);
 			} else {
-				struct expr *expression = parse_expression();
+				struct expr *expression = parse_assignment_expression();
 				if (!expression)
 					ERROR(T0->pos, "Expected size expression.");
 
@@ -980,6 +1071,8 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 		}
 
 		// There might not be space for the null character.
+		if (str.len - calculate_size(type_simple(char_type)) > calculate_size(*type))
+			ERROR(string_token.pos, "String does not fit in %s", dbg_type(*type));
 		str.len = MIN(str.len, calculate_size(*type));
 
 		*init = (struct initializer) { .type = INIT_STRING, .string = str };
@@ -1022,6 +1115,7 @@ static struct expr *parse_initializer_expression(struct type *type) {
 }
 
 static void initializer_set_expression(struct initializer *init, struct type *type, struct expr *expr) {
+	expression_check_assignable(expr, type);
 	*init = (struct initializer) {
 		.type = INIT_EXPRESSION,
 		.expr = expression_cast(expr, type)
@@ -1278,6 +1372,12 @@ static void parse_function_definition(struct specifiers *s, struct string_view n
 	if (type->type != TY_FUNCTION)
 		ERROR(T0->pos, "Expected function type before function body.");
 
+	for (int i = 0; i < type->n; i++) {
+		struct type *child = type->children[i];
+		if (!type_is_complete(child) && !(i == 0 && type_is_simple(child, ST_VOID)))
+			ERROR(T0->pos, "Incomplete type in definition of %.*s", name.len, name.str);
+	}
+
 	int arg_n = 0;
 	struct symbol_identifier **args = NULL;
 	ast_get_parameters(ast, &arg_n, &args);
@@ -1342,9 +1442,22 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 	if (has_symbols)
 		symbols_pop_scope();
 
+	if (external && (s.scs.auto_n || s.scs.register_n))
+		ERROR(T0->pos, "Invalid storage-class specifier in global declaration.");
+
+	if (type->type == TY_FUNCTION && (s.scs.auto_n || s.scs.register_n || s.scs.thread_local_n))
+		ERROR(T0->pos, "Invalid storage-class specifier of function.");
+
+	if (type->type != TY_FUNCTION && (s.fs.inline_n || s.fs.noreturn_n))
+		ERROR(T0->pos, "Only functions can be inline or _Noreturn.");
+
+	if (s.as.alignment && (s.scs.typedef_n || s.scs.register_n || type->type == TY_FUNCTION ||
+						   s.as.alignment < calculate_alignment(type)))
+		ERROR(T0->pos, "Invalid _Alignas.");
+
 	// Evaluate all unevaluated VLAs.
 	if (external) {
-		if (type_contains_unevaluated_vla(type))
+		if (type_is_variably_modified(type))
 			ERROR(T0->pos, "Global declaration can't contain VLA.");
 	} else {
 		type_evaluate_vla(type);
@@ -1388,6 +1501,9 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 		symbol->linkage = linkage;
 	}
 
+	if (type_has_variable_size(type) && (s.scs.extern_n || s.scs.static_n))
+		ERROR(T0->pos, "Variable length array must have automatic storage duration.");
+
 	int has_init = TACCEPT(T_A);
 
 	// Handle function definitions first, since they differ a bit from the others.
@@ -1417,7 +1533,13 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 	int has_definition = has_init || (!external && !s.scs.extern_n);
 	int is_global = linkage == LINKAGE_EXTERNAL;
 
+	if (type_is_simple(type, ST_VOID) && !s.scs.extern_n)
+		ERROR(T0->pos, "Variable of type void");
+
 	if (has_definition) {
+		if (!type_is_complete(type) && !(has_init && type->type == TY_INCOMPLETE_ARRAY))
+			ERROR(T0->pos, "Variable %.*s has incomplete type", name.len, name.str);
+
 		if (symbol->has_definition)
 			ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
 		symbol->has_definition = 1;
@@ -1479,6 +1601,38 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 	return 1;
 }
 
+static int parse_static_assert(void) {
+	if (!TACCEPT(T_KSTATIC_ASSERT))
+		return 0;
+
+	TEXPECT(T_LPAR);
+	struct expr *condition = parse_assignment_expression();
+	if (!condition || !type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Expresison in _Static_assert must be an integer.");
+
+	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), condition);
+	struct constant *constant = expression_to_constant(expr);
+	if (!constant || constant->type != CONSTANT_TYPE)
+		ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
+
+	if (TACCEPT(T_COMMA)) {
+		if (T0->type != T_STRING)
+			ERROR(T0->pos, "Second argument to _Static_assert must be a string.");
+
+		struct string_view msg = T0->str;
+		TNEXT();
+
+		if (constant->uint_d)
+			ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
+	} else {
+		if (constant->uint_d)
+			ERROR(T0->pos, "Static assert failed.\n");
+	}
+	TEXPECT(T_RPAR);
+	TEXPECT(T_SEMI_COLON);
+	return 1;
+}
+
 int parse_declaration(int external) {
 	struct specifiers s;
 	if (!parse_specifiers(&s.ts,
@@ -1486,36 +1640,7 @@ int parse_declaration(int external) {
 						  &s.tq,
 						  &s.fs,
 						  &s.as)) {
-		if (TACCEPT(T_KSTATIC_ASSERT)) {
-			TEXPECT(T_LPAR);
-			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
-			struct constant *constant = expression_to_constant(expr);
-			if (!constant)
-				ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
-
-			assert(constant->type == CONSTANT_TYPE);
-
-			if (!type_is_simple(constant->data_type, ST_INT))
-				ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
-
-			if (TACCEPT(T_COMMA)) {
-				if (T0->type != T_STRING)
-					ERROR(T0->pos, "Second argument to _Static_assert must be a string.");
-
-				struct string_view msg = T0->str;
-				TNEXT();
-
-				if (constant->uint_d)
-					ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
-			} else {
-				if (constant->uint_d)
-					ERROR(T0->pos, "Static assert failed.\n");
-			}
-			TEXPECT(T_RPAR);
-			TEXPECT(T_SEMI_COLON);
-			return 1;
-		}
-		return 0;
+		return parse_static_assert();
 	}
 
 	if (TACCEPT(T_SEMI_COLON))
@@ -1547,6 +1672,9 @@ void generate_tentative_definitions(void) {
 		if (type->type == TY_INCOMPLETE_ARRAY)
 			type = type_array(type->children[0], 1);
 
+		if (!type_is_complete(type))
+			ERROR_NO_POS("Variable %.*s has incomplete type", name.len, name.str);
+
 		data_register_static_var(name, type, (struct initializer) { 0 }, symbol->linkage == LINKAGE_EXTERNAL, symbol->alignment);
 	}
 
diff --git a/src/parser/expression.c b/src/parser/expression.c
index a636acb..8ba3f38 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -303,6 +303,196 @@ static void cast_conditional(struct expr *expr) {
 	}
 }
 
+static int has_scalar_type(struct expr *expr) {
+	return type_is_arithmetic(expr->data_type) || type_is_pointer(expr->data_type);
+}
+
+static int is_lvalue(struct expr *expr) {
+	switch (expr->type) {
+	case E_SYMBOL:
+	case E_VARIABLE:
+	case E_COMPOUND_LITERAL:
+		return 1;
+
+	case E_INDIRECTION:
+		return !type_is_simple(expr->data_type, ST_VOID);
+
+	case E_DOT_OPERATOR:
+		return is_lvalue(expr->member.lhs);
+
+	case E_CONSTANT:
+		return expr->constant.type == CONSTANT_LABEL;
+
+	default:
+		return 0;
+	}
+}
+
+static int has_const_member(struct type *type) {
+	if (type->is_const)
+		return 1;
+
+	if (type_is_array(type))
+		return has_const_member(type->children[0]);
+
+	if (type->type == TY_STRUCT && type->struct_data->is_complete) {
+		for (int i = 0; i < type->struct_data->n; i++) {
+			if (has_const_member(type->struct_data->fields[i].type))
+				return 1;
+		}
+	}
+
+	return 0;
+}
+
+// See 6.3.2.1p1 of the C standard.
+static void check_modifiable(struct expr *expr) {
+	struct type *type = expr->data_type;
+
+	if (!is_lvalue(expr) || type->type == TY_FUNCTION)
+		ERROR(T0->pos, "Can only assign to lvalues");
+
+	if (type_is_array(type))
+		ERROR(T0->pos, "Can't assign to array");
+
+	if (has_const_member(type))
+		ERROR(T0->pos, "Can't modify constant variable");
+}
+
+// Arithmetic on void pointers is a common extension.
+static int has_pointer_arithmetic(struct type *type) {
+	return type_is_pointer(type) &&
+		(type_is_complete(type_deref(type)) || type_is_simple(type_deref(type), ST_VOID));
+}
+
+static void check_operator(enum operator_type op, struct expr *lhs, struct expr *rhs) {
+	struct type *a = lhs->data_type, *b = rhs->data_type;
+	int valid = 0;
+
+	switch (op) {
+	case OP_MUL:
+	case OP_DIV:
+		valid = type_is_arithmetic(a) && type_is_arithmetic(b);
+		break;
+
+	case OP_MOD:
+	case OP_LSHIFT:
+	case OP_RSHIFT:
+	case OP_BAND:
+	case OP_BXOR:
+	case OP_BOR:
+		valid = type_is_integer(a) && type_is_integer(b);
+		break;
+
+	case OP_ADD:
+		valid = (type_is_arithmetic(a) && type_is_arithmetic(b)) ||
+			(has_pointer_arithmetic(a) && type_is_integer(b)) ||
+			(type_is_integer(a) && has_pointer_arithmetic(b));
+		break;
+
+	case OP_SUB:
+		valid = (type_is_arithmetic(a) && type_is_arithmetic(b)) ||
+			(has_pointer_arithmetic(a) && type_is_integer(b)) ||
+			(has_pointer_arithmetic(a) && has_pointer_arithmetic(b) &&
+			 type_make_composite(type_unqualified_pointee(a), type_unqualified_pointee(b)));
+		break;
+
+	case OP_EQUAL:
+	case OP_NOT_EQUAL:
+	case OP_LESS:
+	case OP_GREATER:
+	case OP_LESS_EQ:
+	case OP_GREATER_EQ:
+		valid = (type_is_arithmetic(a) && type_is_arithmetic(b)) ||
+			(type_is_pointer(a) && type_is_pointer(b)) ||
+			(type_is_pointer(a) && type_is_integer(b)) ||
+			(type_is_integer(a) && type_is_pointer(b));
+		break;
+
+	default:
+		valid = 1;
+		break;
+	}
+
+	if (!valid)
+		ERROR(T0->pos, "Invalid operands of types %s and %s",
+			  strdup(dbg_type(a)), strdup(dbg_type(b)));
+}
+
+// Pointers and integers are converted to each other, as many
+// compilers do by default.
+void expression_check_assignable(struct expr *expr, struct type *type) {
+	struct type *source = expr->data_type;
+	int valid = 0;
+
+	if (type_is_array(source) || source->type == TY_FUNCTION) {
+		valid = type_is_pointer(type) || type_is_integer(type);
+	} else if (type_is_arithmetic(type)) {
+		valid = type_is_arithmetic(source) || (type_is_pointer(source) && type_is_integer(type));
+	} else if (type_is_pointer(type)) {
+		valid = type_is_pointer(source) || type_is_integer(source);
+	} else if (type->type == TY_STRUCT) {
+		valid = type_remove_qualifications(type) == type_remove_qualifications(source);
+	}
+
+	if (!valid)
+		ERROR(T0->pos, "Can't convert %s to %s",
+			  strdup(dbg_type(source)), strdup(dbg_type(type)));
+}
+
+void expression_check_scalar(struct expr *expr) {
+	struct type *type = expr->data_type;
+
+	if (!has_scalar_type(expr) && !type_is_array(type) && type->type != TY_FUNCTION)
+		ERROR(T0->pos, "Expected scalar expression, got %s", dbg_type(type));
+}
+
+// Constraints on the types of operands.
+static void check_operands(struct expr *expr) {
+	switch (expr->type) {
+	case E_BINARY_OP:
+		check_operator(expr->binary_op, expr->args[0], expr->args[1]);
+		break;
+
+	case E_UNARY_OP:
+		if (!(expr->unary_op == UOP_BNOT ?
+			  type_is_integer(expr->args[0]->data_type) :
+			  type_is_arithmetic(expr->args[0]->data_type)))
+			ERROR(T0->pos, "Invalid operand of type %s", dbg_type(expr->args[0]->data_type));
+		break;
+
+	case E_INDIRECTION:
+		if (!type_is_pointer(expr->args[0]->data_type))
+			ERROR(T0->pos, "Can't dereference %s", dbg_type(expr->args[0]->data_type));
+		break;
+
+	case E_ASSIGNMENT:
+		check_modifiable(expr->args[0]);
+		expression_check_assignable(expr->args[1], expr->args[0]->data_type);
+		break;
+
+	case E_ASSIGNMENT_OP:
+		check_modifiable(expr->args[0]);
+		if (type_is_pointer(expr->args[1]->data_type))
+			ERROR(T0->pos, "Invalid operand of type %s", dbg_type(expr->args[1]->data_type));
+		check_operator(expr->assignment_op.op, expr->args[0], expr->args[1]);
+		break;
+
+	case E_CONDITIONAL:
+		expression_check_scalar(expr->args[0]);
+		break;
+
+	case E_CALL: {
+		struct type *type = expr->call.callee->data_type;
+		if (!type_is_pointer(type) || type_deref(type)->type != TY_FUNCTION)
+			ERROR(T0->pos, "Can't call %s", dbg_type(type));
+	} break;
+
+	default:
+		break;
+	}
+}
+
 // This applies all the necessary transformations to binary operators
 static void fix_binary_operator(struct expr *expr) {
 	if (expr->type != E_BINARY_OP)
@@ -377,7 +567,7 @@ static void fix_binary_operator(struct expr *expr) {
 	}
 }
 
-static void fix_assignment_operators(struct expr *expr) {
+static void fix_assignment_operators(struct expr *expr, struct expr *lhs) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
@@ -388,13 +578,9 @@ static void fix_assignment_operators(struct expr *expr) {
 	} else {
 		convert_arithmetic(&expr->args[0], &expr->args[1]);
 	}
-	// Reduce double cast into single cast. Always correct in this case.
-	if (expr->args[0]->type == E_CAST) {
-		if (expr->args[0]->cast.arg->type == E_CAST)
-			expr->args[0]->cast.arg = expr->args[0]->cast.arg->cast.arg;
+	// The conversions of the left operand are not needed for the assignment.
+	expr->args[0] = lhs;
 
-		expr->args[0] = expr->args[0]->cast.arg;
-	}
 	int lhs_ptr = type_is_pointer(expr->args[0]->data_type);
 
 	if (lhs_ptr && (expr->assignment_op.op == OP_ADD || expr->assignment_op.op == OP_SUB)) {
@@ -411,20 +597,6 @@ static void fix_assignment_operators(struct expr *expr) {
 int evaluate_constant_expression(struct expr *expr,
  								 struct constant *constant);
 
-static void check_const_correctness(struct expr *expr) {
-	switch (expr->type) {
-	case E_ASSIGNMENT:
-	case E_ASSIGNMENT_OP:
-	case E_ASSIGNMENT_POINTER:
-		if (expr->args[0]->data_type->is_const) {
-			ICE("Can't modify constant variable");
-		}
-		break;
-	default:
-		break;
-	}
-}
-
 static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	int n = 0, *indices;
 	if (!type_search_member(lhs->data_type, name->str, &n, &indices))
@@ -462,6 +634,9 @@ struct expr *expr_new(struct expr expr) {
 		decay_array(&expr.call.callee);
 	}
 
+	check_operands(&expr);
+
+	struct expr *lhs = expr.args[0];
 	int integer_promotion = does_integer_conversion[expr.type];
 	if (integer_promotion) {
 		for (int i = 0; i < num_args[expr.type]; i++) {
@@ -470,7 +645,6 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	if (expr.type == E_CALL) {
-		assert(type_is_pointer(expr.call.callee->data_type));
 		struct type *signature = type_deref(expr.call.callee->data_type);
 
 		int named_arguments_count = signature->n - 1;
@@ -480,13 +654,16 @@ struct expr *expr_new(struct expr expr) {
 			ERROR(T0->pos, "Wrong number of arguments.");
 		}
 
+		for (int i = 0; i < named_arguments_count; i++)
+			expression_check_assignable(expr.call.args[i], signature->children[i + 1]);
+
 		for (int i = named_arguments_count; i < expr.call.n_args; i++) {
 			do_default_argument_promotion(&expr.call.args[i]);
 		}
 	}
 	
 	cast_conditional(&expr);
-	fix_assignment_operators(&expr);
+	fix_assignment_operators(&expr, lhs);
 	fix_binary_operator(&expr);
 
 	expr.data_type = calculate_type(&expr);
@@ -501,8 +678,6 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 
-	check_const_correctness(&expr);
-
 	if (!expr.pos.path)
 		expr.pos = T0->pos; // If no position is supplied, at least take something close to it.
 
@@ -547,6 +722,36 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static struct expr *parse_operand(int precedence) {
+	struct expr *operand = parse_pratt(precedence);
+
+	if (!operand)
+		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
+
+	return operand;
+}
+
+static void check_cast(struct expr *expr, struct type *target) {
+	decay_array(&expr);
+
+	if (type_is_simple(target, ST_VOID))
+		return;
+
+	if (!has_scalar_type(expr) ||
+		!(type_is_arithmetic(target) || type_is_pointer(target)) ||
+		(type_is_pointer(target) && type_is_floating(expr->data_type)) ||
+		(type_is_floating(target) && type_is_pointer(expr->data_type)))
+		ERROR(T0->pos, "Can't cast %s to %s",
+			  strdup(dbg_type(expr->data_type)), strdup(dbg_type(target)));
+}
+
+static struct type *check_operand_type(struct type *type) {
+	if (!type_is_complete(type))
+		ERROR(T0->pos, "Operand has incomplete type %s", dbg_type(type));
+
+	return type;
+}
+
 // The operand of sizeof or _Alignof: a parenthesized type name or a
 // unary expression, which may start with a compound literal.
 static struct type *parse_operand_type(void) {
@@ -558,7 +763,7 @@ static struct type *parse_operand_type(void) {
 		if (type) {
 			TEXPECT(T_RPAR);
 			if (T0->type != T_LBRACE)
-				return type;
+				return check_operand_type(type);
 
 			struct initializer init = parse_initializer(&type);
 			operand = parse_pratt_with_lhs(PREFIX_PREC, expr_new((struct expr) {
@@ -571,12 +776,12 @@ static struct type *parse_operand_type(void) {
 	}
 
 	if (!operand)
-		operand = parse_pratt(PREFIX_PREC);
+		operand = parse_operand(PREFIX_PREC);
 
-	if (!operand)
-		ERROR(T0->pos, "Expected expression");
+	if (get_expression_bitfield(operand) != -1)
+		ERROR(T0->pos, "Operand is a bit-field");
 
-	return operand->data_type;
+	return check_operand_type(operand->data_type);
 }
 
 static struct expr *parse_prefix(void) {
@@ -592,42 +797,54 @@ static struct expr *parse_prefix(void) {
 						.compound_literal = { cast_type, init }
 					});
 			} else {
-				struct expr *rhs = parse_pratt(PREFIX_PREC);
-				if (!rhs)
-					ERROR(T0->pos, "Expected expression");
+				struct expr *rhs = parse_operand(PREFIX_PREC);
+				check_cast(rhs, cast_type);
 
-				struct expr *cast = expression_cast(rhs, cast_type);
-				if (cast != rhs)
-					cast->is_integer_cast = type_is_integer(rhs->data_type);
+				int is_integer = type_is_integer(rhs->data_type);
+				decay_array(&rhs);
+
+				struct expr *cast = expr_new((struct expr) {
+						.type = E_CAST,
+						.cast = { rhs, type_remove_qualifications(cast_type) }
+					});
+				cast->is_integer_cast = is_integer;
 				return cast;
 			}
 		} else {
-			struct expr *expr = parse_pratt(0);
+			struct expr *expr = parse_operand(0);
 			TEXPECT(T_RPAR);
 			return expr;
 		}
 	} else if (TACCEPT(T_INC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_operand(PREFIX_PREC), EXPR_INT(1), 0);
 	} else if (TACCEPT(T_DEC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_operand(PREFIX_PREC), EXPR_INT(1), 0);
  	} else if (TACCEPT(T_STAR)) {
- 		return EXPR_ARGS(E_INDIRECTION, parse_pratt(PREFIX_PREC));
+ 		return EXPR_ARGS(E_INDIRECTION, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_ADD)) {
-		return EXPR_UNARY_OP(UOP_PLUS, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_PLUS, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_SUB)) {
-		return EXPR_UNARY_OP(UOP_NEG, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_NEG, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_NOT)) {
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand(PREFIX_PREC);
 		return EXPR_ARGS(E_CONDITIONAL, rhs,
 						 EXPR_INT(0),
 						 EXPR_INT(1));
 	} else if (TACCEPT(T_BNOT)) {
-		return EXPR_UNARY_OP(UOP_BNOT, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_BNOT, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_AMP)) {
 		struct position pos = T0->pos;
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
-		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
-			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
+		struct expr *rhs = parse_operand(PREFIX_PREC);
+		if (!is_lvalue(rhs) && rhs->type != E_INDIRECTION)
+			ERROR(pos, "Can only take the address of lvalues and functions.");
+		if (get_expression_bitfield(rhs) != -1)
+			ERROR(pos, "Taking address of bit-field is not allowed.");
+
+		struct expr *object = rhs;
+		while (object->type == E_DOT_OPERATOR)
+			object = object->member.lhs;
+		if ((object->type == E_VARIABLE && object->variable.is_register) ||
+			(object->type == E_SYMBOL && object->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
 	} else if (TACCEPT(T_KSIZEOF)) {
@@ -707,9 +924,7 @@ static struct expr *parse_prefix(void) {
 		return EXPR_INTEGER(CHAR32_TYPE, character_constant_char32_to_int(str));
 	} else if (TACCEPT(T_KGENERIC)) {
 		TEXPECT(T_LPAR);
-		struct expr *expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression.");
+		struct expr *expr = parse_operand(ASSIGNMENT_PREC);
 
 		decay_array(&expr);
 		struct type *match_type = type_remove_qualifications(expr->data_type);
@@ -724,9 +939,11 @@ static struct expr *parse_prefix(void) {
 				default_ = 1;
 			} else {
 				type = parse_type_name();
+				if (!type)
+					ERROR(T0->pos, "Expected type-name");
 			}
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_assignment_expression();
+			struct expr *rhs = parse_operand(ASSIGNMENT_PREC);
 			if (default_) {
 				if (default_res)
 					ERROR(T0->pos, "More than one default in _Generic association list");
@@ -751,9 +968,9 @@ static struct expr *parse_prefix(void) {
 		return res;
 	} else if (TACCEPT(T_KVA_START)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
-		struct expr *l = parse_assignment_expression();
+		struct expr *l = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 
 		return expr_new((struct expr) {
@@ -762,9 +979,9 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_COPY)) {
 		TEXPECT(T_LPAR);
-		struct expr *d = parse_assignment_expression();
+		struct expr *d = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
-		struct expr *s = parse_assignment_expression();
+		struct expr *s = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_COPY,
@@ -772,7 +989,7 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_END)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_END,
@@ -780,7 +997,7 @@ static struct expr *parse_prefix(void) {
 		 	});
 	} else if (TACCEPT(T_KVA_ARG)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
 		struct type *t = parse_type_name();
 		if (!t)
@@ -862,33 +1079,33 @@ struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
 		int tok_type = T0->type;
 		if (ops[tok_type][0] == 1) {
 			TNEXT();
-			lhs = EXPR_ARGS(ops[tok_type][1], lhs, parse_pratt(new_prec));
+			lhs = EXPR_ARGS(ops[tok_type][1], lhs, parse_operand(new_prec));
 		} else if (ops[tok_type][0] == 2) {
 			TNEXT();
-			lhs = EXPR_ASSIGNMENT_OP(ops[tok_type][1], lhs, parse_pratt(new_prec), 0);
+			lhs = EXPR_ASSIGNMENT_OP(ops[tok_type][1], lhs, parse_operand(new_prec), 0);
 		} else if (ops[tok_type][0] == 3) {
 			TNEXT();
-			lhs = EXPR_BINARY_OP(ops[tok_type][1], lhs, parse_pratt(new_prec));
+			lhs = EXPR_BINARY_OP(ops[tok_type][1], lhs, parse_operand(new_prec));
 		} else if (TACCEPT(T_QUEST)) {
-			struct expr *mid = parse_expression();
+			struct expr *mid = parse_operand(0);
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, mid, rhs);
 		} else if (TACCEPT(T_OR)) {
 			// A || B -> A ? 1 : (B ? 1 : 0)
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, EXPR_INT(1),
 							EXPR_ARGS(E_CONDITIONAL, rhs, EXPR_INT(1), EXPR_INT(0)));
 		} else if (TACCEPT(T_AND)) {
 			// A && B -> A ? (B ? 1 : 0) : 0
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs,
 							EXPR_ARGS(E_CONDITIONAL, rhs, EXPR_INT(1), EXPR_INT(0)),
 							EXPR_INT(0));
 		}
 		// Postfix operators
 		else if (TACCEPT(T_LBRACK)) {
-			struct expr *index = parse_expression();
+			struct expr *index = parse_operand(0);
 			TEXPECT(T_RBRACK);
 			lhs = expr_new((struct expr) {
 					.type = E_INDIRECTION,
@@ -1105,7 +1322,8 @@ int evaluate_constant_expression(struct expr *expr,
 		struct constant lhs, rhs;
 		if (!evaluate_constant_expression(expr->args[0], &lhs))
 			return 0;
-		if (!evaluate_constant_expression(expr->args[1], &rhs))
+		if (!evaluate_constant_expression(expr->args[1], &rhs) ||
+			rhs.type == CONSTANT_LABEL)
 			return 0;
 
 		*constant = rhs;
diff --git a/src/parser/expression.h b/src/parser/expression.h
index b504ee4..27c698d 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -171,6 +171,9 @@ struct expr *parse_assignment_expression(void);
 struct expr *parse_expression(void);
 struct expr *expression_cast(struct expr *expr, struct type *type);
 
+void expression_check_assignable(struct expr *expr, struct type *type);
+void expression_check_scalar(struct expr *expr);
+
 struct constant *expression_to_constant(struct expr *expr);
 int evaluate_constant_expression(struct expr *expr, struct constant *constant);
 
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index fe43690..ecde1d7 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -452,6 +452,7 @@ static struct evaluated_expression evaluate_compound_literal(struct expr *expr)
 
 	return (struct evaluated_expression) {
 		.type = EE_POINTER,
+		.is_lvalue = 1,
 		.pointer = address,
 	};
 }
@@ -778,6 +779,7 @@ struct node *expression_to_int(struct expr *expr) {
 
 // Is non-zero if and only if the expression compares unequal to 0.
 struct node *expression_to_condition(struct expr *expr) {
+	expression_check_scalar(expr);
 	return expression_to_ir(expression_cast(expr, type_simple(ST_BOOL)));
 }
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8a2879d..db3f713 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -531,6 +531,15 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 
 		struct evaluated_expression value = { .type = EE_VOID };
 
+		if (type_is_simple(current_ret_val, ST_VOID)) {
+			if (expr)
+				ERROR(T0->pos, "Function without result returns a value");
+		} else {
+			if (!expr)
+				ERROR(T0->pos, "Function with result returns no value");
+			expression_check_assignable(expr, current_ret_val);
+		}
+
 		if (expr)
 			value = expression_evaluate(expression_cast(expr, current_ret_val));
 
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 8ca7950..0d3b4e8 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -212,6 +212,7 @@ static void directiver_define(struct token directive) {
 
 	push(t);
 
+	define_check(&def);
 	define_map_add(def);
 }
 
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 31d8a12..2bb8911 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -105,6 +105,20 @@ static int get_param(struct define *def, struct token tok) {
 	return token_list_index_of(&def->par, tok);
 }
 
+// Constraints on macro definitions.
+void define_check(struct define *def) {
+	for (int i = 0; i < def->def.size; i++) {
+		struct token t = def->def.list[i];
+
+		if (t.type == PP_HHASH && (i == 0 || i == def->def.size - 1))
+			ERROR(t.pos, "## at either end of macro");
+
+		if (t.type == PP_HASH && def->func &&
+			(i == def->def.size - 1 || get_param(def, def->def.list[i + 1]) == -1))
+			ERROR(t.pos, "# is not followed by a macro parameter");
+	}
+}
+
 void define_string(char *name, char *value) {
 	struct define def = define_init(sv_from_str(strdup(name)));
 	def.def = tokenize_input(value, "<string>");
diff --git a/src/preprocessor/macro_expander.h b/src/preprocessor/macro_expander.h
index 9cd2bfb..dcca132 100644
--- a/src/preprocessor/macro_expander.h
+++ b/src/preprocessor/macro_expander.h
@@ -15,6 +15,7 @@ struct define {
 
 void define_string(char *name, char *value);
 struct define define_init(struct string_view name);
+void define_check(struct define *def);
 void define_add_def(struct define *d, struct token t);
 void define_add_par(struct define *d, struct token t);
 
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 98863e5..25d6d4b 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -221,6 +221,9 @@ struct token string_concat_next(void) {
 		escape_string_to_buffer(t.str, type);
 		t.str = buffer_get();
 
+		if (!t.str.len)
+			ERROR(t.pos, "Empty character constant");
+
 		switch (type) {
 		case STRING_DEFAULT:
 			t.type = T_CHARACTER_CONSTANT;
diff --git a/src/types.c b/src/types.c
index 16d330d..7053a39 100644
--- a/src/types.c
+++ b/src/types.c
@@ -381,6 +381,24 @@ int type_has_variable_size(struct type *type) {
 	}
 }
 
+// Is it a complete object type?
+int type_is_complete(struct type *type) {
+	switch (type->type) {
+	case TY_SIMPLE:
+		return type->simple != ST_VOID;
+
+	case TY_STRUCT:
+		return type->struct_data->is_complete;
+
+	case TY_FUNCTION:
+	case TY_INCOMPLETE_ARRAY:
+		return 0;
+
+	default:
+		return 1;
+	}
+}
+
 int type_is_simple(struct type *type, enum simple_type st) {
 	return type->type == TY_SIMPLE &&
 		type->simple == st;
@@ -436,12 +454,13 @@ void type_evaluate_vla(struct type *type) {
 	}
 }
 
-int type_contains_unevaluated_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
-		if (type_contains_unevaluated_vla(type->children[i]))
-			return 1;
+// Is it a variable length array, or derived from one?
+int type_is_variably_modified(struct type *type) {
+	if (type->type == TY_VARIABLE_LENGTH_ARRAY)
+		return 1;
 
-	return type->type == TY_VARIABLE_LENGTH_ARRAY && type->variable_length_array.is_evaluated;
+	// The parameters of a function do not matter.
+	return type->n && type_is_variably_modified(type->children[0]);
 }
 
 // See 6.2.7.
diff --git a/src/types.h b/src/types.h
index 4a39199..6a6db09 100644
--- a/src/types.h
+++ b/src/types.h
@@ -142,7 +142,7 @@ struct type *type_adjust_parameter(struct type *type);
 struct type *type_remove_qualifications(struct type *type);
 
 void type_evaluate_vla(struct type *type);
-int type_contains_unevaluated_vla(struct type *type);
+int type_is_variably_modified(struct type *type);
 
 int type_search_member(struct type *type, struct string_view name,
 					   int *n, int **indices);
@@ -161,6 +161,7 @@ struct type *type_make_composite(struct type *a, struct type *b);
 
 void type_remove_unnamed(struct struct_data *data);
 int type_has_variable_size(struct type *type);
+int type_is_complete(struct type *type);
 
 struct expr;
 struct expr *type_sizeof(struct type *type);
-- 
2.43.0


From 1e2d38b49624eb1e6b3da5c2f630740cab675be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:48 +0000
Subject: [PATCH 56/66] fix: diagnose invalid declarations in for loops,
 _Generic and struct members

property=C22
---
 src/parser/declaration.c     | 31 +++++++++++++++++++++++++------
 src/parser/declaration.h     |  1 +
 src/parser/expression.c      |  2 ++
 src/parser/function_parser.c |  2 +-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index b4a1e92..7fd9ed1 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -508,6 +508,9 @@ int parse_struct(struct type_specifiers *ts) {
 					break;
 				}
 
+				if (s.as.alignment && (bitfield != -1 || s.as.alignment < calculate_alignment(type)))
+					ERROR(T0->pos, "Invalid _Alignas.");
+
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
@@ -767,6 +770,9 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				}
 			} break;
 			case ARR_STAR: {
+				if (!allow_tq_in_array)
+					ERROR(ast->pos, "[*] is only allowed in function prototypes");
+
 				struct type params = {
 					.type = TY_VARIABLE_LENGTH_ARRAY,
 					.variable_length_array.length_expr = NULL,
@@ -1174,8 +1180,10 @@ static void parse_designators(struct initializer_path *path) {
 			if (level->type->type != TY_ARRAY && level->type->type != TY_INCOMPLETE_ARRAY)
 				ERROR(T0->pos, "Array designator in initializer of %s.", dbg_type(level->type));
 
-			struct expr *expr = parse_expression();
-			struct constant *c = expr ? expression_to_constant(expression_cast(expr, type_simple(ST_ULLONG))) : NULL;
+			struct expr *expr = parse_assignment_expression();
+			if (!expr || !type_is_integer(expr->data_type))
+				ERROR(T0->pos, "Array designator must be an integer.");
+			struct constant *c = expression_to_constant(expression_cast(expr, type_simple(ST_ULLONG)));
 			if (!c || c->type != CONSTANT_TYPE)
 				ERROR(T0->pos, "Expected constant expression in array designator.");
 			TEXPECT(T_RBRACK);
@@ -1408,7 +1416,7 @@ static void parse_function_definition(struct specifiers *s, struct string_view n
 			(struct inline_candidate) { name, get_current_function() };
 }
 
-static int parse_init_declarator(struct specifiers s, int external, int first, int *was_func) {
+static int parse_init_declarator(struct specifiers s, int external, int is_for_loop, int first, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
 	struct type_ast *ast = parse_declarator(1, &was_abstract, &has_symbols);
@@ -1430,7 +1438,7 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 		if (!external)
 			ERROR(T0->pos, "Function definition are not allowed inside functions.");
 
-		if (!first || s.scs.typedef_n)
+		if (!first || s.scs.typedef_n || s.scs.auto_n || s.scs.register_n || s.as.alignment)
 			ERROR(T0->pos, "Function definition not allowed here.");
 
 		parse_function_definition(&s, name, type, ast);
@@ -1466,6 +1474,9 @@ static int parse_init_declarator(struct specifiers s, int external, int first, i
 	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
 	struct symbol_typedef *prev_typedef = symbols_get_typedef_in_current_scope(name);
 
+	if (is_for_loop && (s.scs.typedef_n || s.scs.extern_n || s.scs.static_n || type->type == TY_FUNCTION))
+		ERROR(T0->pos, "Only automatic variables can be declared in a for loop.");
+
 	if (s.scs.typedef_n) {
 		if (T0->type == T_A)
 			ERROR(T0->pos, "Typedef can't have initializer.");
@@ -1633,7 +1644,7 @@ static int parse_static_assert(void) {
 	return 1;
 }
 
-int parse_declaration(int external) {
+static int parse_declaration_in(int external, int is_for_loop) {
 	struct specifiers s;
 	if (!parse_specifiers(&s.ts,
 						  &s.scs,
@@ -1648,7 +1659,7 @@ int parse_declaration(int external) {
 
 	int was_func = 0, first = 1;
 	do {
-		if (!parse_init_declarator(s, external, first, &was_func))
+		if (!parse_init_declarator(s, external, is_for_loop, first, &was_func))
 			ERROR(T0->pos, "Expected declarator.");
 		first = 0;
 	} while (!was_func && TACCEPT(T_COMMA));
@@ -1659,6 +1670,14 @@ int parse_declaration(int external) {
 	return 1;
 }
 
+int parse_declaration(int external) {
+	return parse_declaration_in(external, 0);
+}
+
+int parse_for_loop_declaration(void) {
+	return parse_declaration_in(0, 1);
+}
+
 void generate_tentative_definitions(void) {
 	for (size_t i = 0; i < potentially_tentative.size; i++) {
 		struct string_view name = potentially_tentative.names[i];
diff --git a/src/parser/declaration.h b/src/parser/declaration.h
index f21c630..0f0856b 100644
--- a/src/parser/declaration.h
+++ b/src/parser/declaration.h
@@ -104,6 +104,7 @@ struct specifiers {
 // See section A.2.2 in the standard.
 struct type *parse_type_name(void);
 int parse_declaration(int external);
+int parse_for_loop_declaration(void);
 
 void generate_tentative_definitions(void);
 
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 8ba3f38..b9ae5a5 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -941,6 +941,8 @@ static struct expr *parse_prefix(void) {
 				type = parse_type_name();
 				if (!type)
 					ERROR(T0->pos, "Expected type-name");
+				if (!type_is_complete(type) || type_is_variably_modified(type))
+					ERROR(T0->pos, "Invalid type in _Generic association list, %s", dbg_type(type));
 			}
 			TEXPECT(T_COLON);
 			struct expr *rhs = parse_operand(ASSIGNMENT_PREC);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index db3f713..fa4b5f3 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -420,7 +420,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	ir_block_start(block_init); // not really necessary?
 
 	if (!(TACCEPT(T_SEMI_COLON) ||
-		  parse_declaration(0) ||
+		  parse_for_loop_declaration() ||
 		  parse_expression_statement()))
 		ERROR(T0->pos, "Invalid first part of for loop");
 
-- 
2.43.0


From 78f56a8d4b05311e010a63541d90cf078932b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:53 +0000
Subject: [PATCH 57/66] fix: accept strings that do not fit in an array

property=C22
---
 src/parser/declaration.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7fd9ed1..a2daf3f 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1077,8 +1077,6 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 		}
 
 		// There might not be space for the null character.
-		if (str.len - calculate_size(type_simple(char_type)) > calculate_size(*type))
-			ERROR(string_token.pos, "String does not fit in %s", dbg_type(*type));
 		str.len = MIN(str.len, calculate_size(*type));
 
 		*init = (struct initializer) { .type = INIT_STRING, .string = str };
-- 
2.43.0


From daec6fb69d96fe8755763f0bcb344da4ce622254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:36 +0000
Subject: [PATCH 58/66] fix: let the initializer of a local variable refer to
 the variable

property=C08
---
 src/parser/declaration.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index a2daf3f..47a7f1b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1588,17 +1588,17 @@ static int parse_init_declarator(struct specifiers s, int external, int is_for_l
 					ERROR(T0->pos, "Variable length array can't have initializer");
 			} else {
 				symbol->type = IDENT_VARIABLE;
-				struct node *ptr;
+				struct initializer init = { 0 };
 				symbol->variable.type = type;
 				if (has_init) {
-					struct initializer init = parse_initializer(&type);
+					init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), MAX(calculate_alignment(type), symbol->alignment));
-					ir_init_ptr(&init, type, ptr);
-				} else {
-					ptr = ir_allocate(calculate_size(type), MAX(calculate_alignment(type), symbol->alignment));
 				}
-				symbol->variable.ptr = ptr;
+
+				// The initializer can refer to the variable itself.
+				symbol->variable.ptr = ir_allocate(calculate_size(type), MAX(calculate_alignment(type), symbol->alignment));
+				if (has_init)
+					ir_init_ptr(&init, type, symbol->variable.ptr);
 			}
 		}
 	} else {
-- 
2.43.0


From 4b13b467b79cf9108b8d45f7f40183eb5a6f929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:36 +0000
Subject: [PATCH 59/66] fix: fail when output cannot be written

property=C23
---
 src/assembler/assembler.c        |  9 ++++-----
 src/common.c                     | 17 +++++++++++++++++
 src/common.h                     |  2 ++
 src/ir/export_dot.c              |  5 +++--
 src/linker/coff.c                |  4 ++--
 src/linker/elf.c                 |  4 ++--
 src/main.c                       |  3 +++
 src/preprocessor/directives.c    |  4 ++--
 src/preprocessor/string_concat.c |  3 ++-
 9 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 1b8c5ac..1e5e453 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -17,6 +17,7 @@
 static int assemble_to_text = 0;
 
 static FILE *out;
+static const char *out_path;
 static const char *current_section;
 
 static struct object *out_object;
@@ -32,10 +33,8 @@ void asm_init_text_out(const char *path) {
 	assemble_to_text = 1;
 	current_section = ".text";
 
-	out = fopen(path, "w");
-
-	if (!out)
-		ICE("Could not open file %s", path);
+	out = file_open_write(path, "w");
+	out_path = path;
 }
 
 void asm_init_object(struct object *object) {
@@ -45,7 +44,7 @@ void asm_init_object(struct object *object) {
 
 void asm_finish(void) {
 	if (assemble_to_text) {
-		fclose(out);
+		file_close_write(out, out_path);
 	} else {
 		*out_object = *object_finish();
 	}
diff --git a/src/common.c b/src/common.c
index a973b21..d132b03 100644
--- a/src/common.c
+++ b/src/common.c
@@ -135,6 +135,23 @@ uint64_t read_64(uint8_t *data) {
 	return read_32(data) | ((uint64_t)read_32(data + 4) << 32);
 }
 
+FILE *file_open_write(const char *path, const char *mode) {
+	FILE *fp = fopen(path, mode);
+
+	if (!fp)
+		ERROR_NO_POS("Could not open \"%s\" for writing.", path);
+
+	return fp;
+}
+
+// Closes a file opened for writing, everything must have reached it.
+void file_close_write(FILE *fp, const char *path) {
+	int failed = ferror(fp);
+
+	if (fclose(fp) != 0 || failed)
+		ERROR_NO_POS("Could not write to \"%s\".", path);
+}
+
 void file_write(FILE *fp, const void *ptr, size_t size) {
 	if (size == 0)
 		return;
diff --git a/src/common.h b/src/common.h
index 56ebf52..ffe0ebd 100644
--- a/src/common.h
+++ b/src/common.h
@@ -57,6 +57,8 @@ uint16_t read_16(uint8_t *data);
 uint32_t read_32(uint8_t *data);
 uint64_t read_64(uint8_t *data);
 
+FILE *file_open_write(const char *path, const char *mode);
+void file_close_write(FILE *fp, const char *path);
 void file_write(FILE *fp, const void *ptr, size_t size);
 void file_write_byte(FILE *fp, uint8_t byte);
 void file_write_word(FILE *fp, uint16_t word);
diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 5efd314..6ac8843 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -1,6 +1,7 @@
 #include "export_dot.h"
 #include "ir.h"
 
+#include <common.h>
 #include <debug.h>
 
 #include <stdio.h>
@@ -58,7 +59,7 @@ static void add_recursive(struct node *start) {
 }
 
 void export_dot(const char *path) {
-	fp = fopen(path, "w");
+	fp = file_open_write(path, "w");
 	fprintf(fp, "digraph graphname {\n");
 
 	int count = 0;
@@ -107,5 +108,5 @@ void export_dot(const char *path) {
 	add_recursive(first_function);
 
 	fprintf(fp, "}\n");
-	fclose(fp);
+	file_close_write(fp, path);
 }
diff --git a/src/linker/coff.c b/src/linker/coff.c
index ba0f482..9ea0024 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -354,7 +354,7 @@ static void coff_allocate(struct coff_file *coff) {
 }
 
 static void coff_write(const char *path, struct coff_file *coff) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open_write(path, "wb");
 	coff_write_header(fp, &coff->header);
 
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
@@ -378,7 +378,7 @@ static void coff_write(const char *path, struct coff_file *coff) {
 		}
 	}
 
-	fclose(fp);
+	file_close_write(fp, path);
 }
 
 void coff_write_object(const char *path, struct object *object) {
diff --git a/src/linker/elf.c b/src/linker/elf.c
index e794762..8497d3c 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -777,13 +777,13 @@ static void write_segments(FILE *fp, struct elf_file *elf) {
 }
 
 static void elf_write(const char *path, struct elf_file *elf) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open_write(path, "wb");
 
 	write_header(fp, elf);
 	write_sections(fp, elf);
 	write_segments(fp, elf);
 
-	fclose(fp);
+	file_close_write(fp, path);
 }
 
 static struct elf_file *elf_read(const char *path) {
diff --git a/src/main.c b/src/main.c
index 6d4e509..e1b65ee 100644
--- a/src/main.c
+++ b/src/main.c
@@ -324,5 +324,8 @@ int main(int argc, char **argv) {
 
 	arguments_free(&arguments);
 
+	if (ferror(stdout) || fflush(stdout) != 0)
+		ERROR_NO_POS("Could not write to standard output.");
+
 	return 0;
 }
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 0d3b4e8..32d4a3d 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -57,14 +57,14 @@ void directiver_write_dependencies(void) {
 void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 	write_dependencies = 1;
 
-	FILE *fp = fopen(mf, "w");
+	FILE *fp = file_open_write(mf, "w");
 
 	fprintf(fp, "%s:", mt);
 	for (unsigned i = 0; i < dep_size; i++)
 		fprintf(fp, " %s", deps[i]);
 	fprintf(fp, "\n");
 
-	fclose(fp);
+	file_close_write(fp, mf);
 }
 
 // Resets all global state. Not very elegant.
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 25d6d4b..7df6105 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -39,7 +39,8 @@ static void buffer_write(char c) {
 static struct string_view buffer_get(void) {
 	struct string_view ret = { .len = buffer_size };
 	ret.str = cc_malloc(buffer_size);
-	memcpy(ret.str, buffer, buffer_size);
+	if (buffer_size)
+		memcpy(ret.str, buffer, buffer_size);
 	return ret;
 }
 
-- 
2.43.0


From fd347b47eb0cde598ec38737030e075713135354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:16 +0000
Subject: [PATCH 60/66] fix: do not store constants through misaligned pointers

property=C23
---
 src/arch/x64.c    | 8 ++++----
 src/string_view.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 9a298ff..a8e3fa9 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -644,10 +644,10 @@ void constant_to_buffer(uint8_t *buffer, struct constant constant, int bit_offse
 	}
 
 	switch (size) {
-	case 1: *buffer = value & 0xff; break;
-	case 2: *(uint16_t *)buffer = value & 0xffff; break;
-	case 4: *(uint32_t *)buffer = value & 0xffffffff; break;
-	case 8: *(uint64_t *)buffer = value; break;
+	case 1: write_8(buffer, value); break;
+	case 2: write_16(buffer, value); break;
+	case 4: write_32(buffer, value); break;
+	case 8: write_64(buffer, value); break;
 	default: NOTIMP();
 	}
 }
diff --git a/src/string_view.c b/src/string_view.c
index 8ef2559..22e928d 100644
--- a/src/string_view.c
+++ b/src/string_view.c
@@ -16,7 +16,7 @@ int sv_cmp(struct string_view a, struct string_view b) {
 	if (a.len != b.len)
 		return 0;
 
-	return memcmp(a.str, b.str, a.len) == 0;
+	return a.len == 0 || memcmp(a.str, b.str, a.len) == 0;
 }
 
 struct string_view sv_from_str(char *string) {
-- 
2.43.0


From 4c67034c71c2f98db1776e3c35029051a1ba6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:30 +0000
Subject: [PATCH 61/66] fix: evaluate the lengths of variable length arrays
 where they are written and keep allocations in order

property=C26
---
 src/codegen/codegen.c         |  8 ++++---
 src/debug.c                   |  2 +-
 src/ir/ir.c                   | 10 +++++++--
 src/ir/ir.h                   |  3 ++-
 src/parser/declaration.c      | 16 ++++++-------
 src/parser/expression.c       | 17 ++++++++++----
 src/parser/expression.h       |  4 ++++
 src/parser/expression_to_ir.c | 12 ++++++++++
 src/parser/function_parser.c  |  4 +++-
 src/types.c                   | 42 ++++++++++++++++++++++-------------
 src/types.h                   | 11 ++++++---
 11 files changed, 91 insertions(+), 38 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 06ed1bb..16ddd6f 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -505,6 +505,8 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		for (int i = ins->vla_alloc.dominance + 1; i < vla_info.count; i++)
 			asm_ins2("movq", IMM(0), MEM(-vla_info.vla_slot_buffer_offset + i * 8, REG_RBP));
 
+		int alignment = MAX(ins->vla_alloc.alignment, 16);
+
 		label_id tmp_label = register_label();
 		asm_ins2("movq", MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP), R8(REG_RAX));
 		asm_ins2("cmpq", IMM(0), R8(REG_RAX));
@@ -519,9 +521,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		asm_ins2("movq", R8(REG_RSP), MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP));
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		asm_ins2("subq", R8(REG_RAX), R8(REG_RSP));
-		reg_to_scalar(REG_RSP, ins);
-		// Align %rsp to 16 boundary. (Remember stack grows downwards. So rounding down is actually correct.)
-		asm_ins2("andq", IMM(-16), R8(REG_RSP));
+		// Align %rsp to boundary. (Remember stack grows downwards. So rounding down is actually correct.)
+		asm_ins2("andq", IMM(-alignment), R8(REG_RSP));
+		reg_to_scalar(REG_RSP, ins->projects[1]);
 	} break;
 
 	case IR_ALLOC:
diff --git a/src/debug.c b/src/debug.c
index 4b3284e..25c5a82 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -185,7 +185,7 @@ const char *dbg_instruction(struct node *ins) {
 			str = "region";
 		}
 		break;
-	case IR_VLA_ALLOC: str = "vla_alloc %d"; break;
+	case IR_VLA_ALLOC: str = "vla_alloc %d, state: %d"; break;
 	case IR_RETURN: str = "return %d, %d, %d"; break;
 
 	case IR_CONSTANT: // TODO: Print the constant.
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 0270ee8..33920f0 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -634,8 +634,12 @@ void ir_call(struct node *callee, struct node *reg_state, struct node *call_stac
 	*reg_source = ir_project(ins, 1, 0);
 }
 
-struct node *ir_vla_alloc(struct node *length) {
-	return ir_new1(IR_VLA_ALLOC, length, 8);
+struct node *ir_vla_alloc(struct node *length, int alignment) {
+	// It changes the stack pointer, so it has to stay in its place.
+	struct node *ins = ir_new2(IR_VLA_ALLOC, length, get_state(), 0);
+	ins->vla_alloc.alignment = alignment;
+	set_state(ir_project(ins, 0, 0));
+	return ir_project(ins, 1, 8);
 }
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse) {
@@ -778,6 +782,8 @@ struct node *node_get_prev_state(struct node *node) {
 		return node->arguments[2];
 	else if (node->type == IR_LOAD_VOLATILE)
 		return node->arguments[1];
+	else if (node->type == IR_VLA_ALLOC)
+		return node->arguments[1];
 	else if (node->type == IR_LOAD_BASE_RELATIVE_ADDRESS)
 		return node->arguments[1];
 	else if (node->type == IR_SET_ZERO_PTR)
diff --git a/src/ir/ir.h b/src/ir/ir.h
index 7537805..708b0b4 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -107,6 +107,7 @@ struct node {
 
 		struct {
 			int dominance;
+			int alignment;
 		} vla_alloc;
 
 		struct {
@@ -290,7 +291,7 @@ struct node *ir_constant(struct constant constant);
 void ir_call(struct node *callee, struct node *reg_state, struct node *call_stack,
 			 int non_clobbered_register,
 			 struct node **reg_source);
-struct node *ir_vla_alloc(struct node *length);
+struct node *ir_vla_alloc(struct node *length, int alignment);
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse);
 struct node *ir_get_reg(struct node *source, int size, int register_index, int is_sse);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 47a7f1b..1fda418 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -763,7 +763,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				} else {
 					struct type params = {
 						.type = TY_VARIABLE_LENGTH_ARRAY,
-						.variable_length_array.length_expr = length_expr,
+						.variable_length_array.length = ALLOC((struct vla_length) { length_expr, NULL }),
 						.n = 1
 					};
 					type = type_create(&params, &type);
@@ -775,7 +775,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 
 				struct type params = {
 					.type = TY_VARIABLE_LENGTH_ARRAY,
-					.variable_length_array.length_expr = NULL,
+					.variable_length_array.length = ALLOC((struct vla_length) { NULL, NULL }),
 					.n = 1
 				};
 				type = type_create(&params, &type);
@@ -986,9 +986,10 @@ struct type_ast *parse_declarator(int concrete, int *was_abstract, int *has_symb
 				arr.array.type = ARR_EMPTY;
 				if (need_expression)
 					ERROR(T0->pos, "Missing expression after static.");
-			} else if (TACCEPT(T_STAR)) {
+			} else if (T0->type == T_STAR && T1->type == T_RBRACK) {
+				TNEXT();
+				TNEXT();
 				arr.array.type = ARR_STAR;
-				TEXPECT(T_RBRACK);
 			} else {
 				struct expr *expression = parse_assignment_expression();
 				if (!expression)
@@ -1330,9 +1331,7 @@ struct type *parse_type_name(void) {
 	if (!was_abstract)
 		ERROR(T0->pos, "Type name must be abstract");
 
-	struct type *type = ast_to_type(&s.ts, &s.tq, ast, NULL, 0);
-	type_evaluate_vla(type);
-	return type;
+	return ast_to_type(&s.ts, &s.tq, ast, NULL, 0);
 }
 
 struct {
@@ -1581,7 +1580,8 @@ static int parse_init_declarator(struct specifiers s, int external, int is_for_l
 		} else {
 			if (type_has_variable_size(type)) {
 				symbol->type = IDENT_VARIABLE;
-				symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)));
+				symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)),
+													MAX(calculate_alignment(type), symbol->alignment));
 				symbol->variable.type = type;
 
 				if (has_init)
diff --git a/src/parser/expression.c b/src/parser/expression.c
index b9ae5a5..f57fbbf 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -182,6 +182,9 @@ static struct type *calculate_type(struct expr *expr) {
 	case E_POINTER_DIFF:
 		return type_simple(abi_info.ptrdiff_type);
 
+	case E_VLA_LENGTH:
+		return type_simple(abi_info.size_type);
+
 	case E_COMMA:
 		return expr->args[1]->data_type;
 
@@ -754,7 +757,8 @@ static struct type *check_operand_type(struct type *type) {
 
 // The operand of sizeof or _Alignof: a parenthesized type name or a
 // unary expression, which may start with a compound literal.
-static struct type *parse_operand_type(void) {
+// An expression that has to be evaluated is returned in operand_evaluated.
+static struct type *parse_operand_type(struct expr **operand_evaluated) {
 	struct expr *operand = NULL;
 	struct token t = *T0;
 
@@ -781,6 +785,9 @@ static struct type *parse_operand_type(void) {
 	if (get_expression_bitfield(operand) != -1)
 		ERROR(T0->pos, "Operand is a bit-field");
 
+	if (operand_evaluated && type_has_variable_size(operand->data_type))
+		*operand_evaluated = operand;
+
 	return check_operand_type(operand->data_type);
 }
 
@@ -805,7 +812,7 @@ static struct expr *parse_prefix(void) {
 
 				struct expr *cast = expr_new((struct expr) {
 						.type = E_CAST,
-						.cast = { rhs, type_remove_qualifications(cast_type) }
+						.cast = { rhs, type_remove_qualifications(cast_type), 1 }
 					});
 				cast->is_integer_cast = is_integer;
 				return cast;
@@ -848,9 +855,11 @@ static struct expr *parse_prefix(void) {
 			ERROR(pos, "Taking address of register variable is not allowed.");
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
 	} else if (TACCEPT(T_KSIZEOF)) {
-		return type_sizeof(parse_operand_type());
+		struct expr *operand = NULL;
+		struct expr *size = type_sizeof(parse_operand_type(&operand));
+		return operand ? EXPR_ARGS(E_COMMA, operand, size) : size;
 	} else if (TACCEPT(T_KALIGNOF)) {
-		return type_alignof(parse_operand_type());
+		return type_alignof(parse_operand_type(NULL));
 	} else if (T0->type == T_IDENT) {
 		struct symbol_identifier *sym = symbols_get_identifier(T0->str);
 
diff --git a/src/parser/expression.h b/src/parser/expression.h
index 27c698d..7faaf75 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -87,6 +87,7 @@ struct expr {
 		E_BUILTIN_VA_ARG,
 		E_BUILTIN_VA_COPY,
 		E_CONST_REMOVE,
+		E_VLA_LENGTH,
 
 		E_BINARY_OP,
 
@@ -108,6 +109,7 @@ struct expr {
 		struct {
 			struct expr *arg;
 			struct type *target;
+			int is_explicit;
 		} cast;
 
 		struct {
@@ -143,6 +145,8 @@ struct expr {
 			struct expr *d, *s;
 		} va_copy_;
 
+		struct vla_length *vla_length;
+
 		struct constant constant;
 
 		struct {
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index ecde1d7..b437687 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -413,6 +413,9 @@ static struct evaluated_expression evaluate_dot_operator(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_cast(struct expr *expr) {
+	if (expr->cast.is_explicit)
+		type_evaluate_vla(expr->cast.target);
+
 	struct evaluated_expression rhs = expression_evaluate(expr->cast.arg);
 	return evaluated_expression_cast(&rhs, expr->cast.target);
 }
@@ -446,6 +449,7 @@ static struct evaluated_expression evaluate_array_ptr_decay(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_compound_literal(struct expr *expr) {
+	type_evaluate_vla(expr->compound_literal.type);
 	struct node *address = ir_allocate(calculate_size(expr->compound_literal.type),
 									   calculate_alignment(expr->compound_literal.type));
 	ir_init_ptr(&expr->compound_literal.init, expr->compound_literal.type, address);
@@ -659,6 +663,7 @@ static struct evaluated_expression evaluate_va_start(struct expr *expr) {
 
 static struct evaluated_expression evaluate_va_arg(struct expr *expr) {
 	struct evaluated_expression v = expression_evaluate(expr->va_arg_.v);
+	type_evaluate_vla(expr->data_type);
 	struct node *result_address = ir_allocate(calculate_size(expr->data_type), 0);
 	if (abi_info.va_list_is_reference) {
 		ir_va_arg(evaluated_expression_to_address(&v), result_address, expr->va_arg_.t);
@@ -737,6 +742,13 @@ struct evaluated_expression expression_evaluate(struct expr *expr) {
 		};
 		break;
 
+	case E_VLA_LENGTH:
+		ret = (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.variable = type_evaluate_vla_length(expr->vla_length),
+		};
+		break;
+
 	case E_COMMA:
 		expression_evaluate(expr->args[0]);
 		ret = expression_evaluate(expr->args[1]);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index fa4b5f3..15f9054 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -587,7 +587,9 @@ void parse_function(struct symbol_identifier *symbol, struct string_view name, s
 	struct node *func = new_function(sv_to_str(name), global);
 	abi_expr_function(func, type, args);
 
-	type_evaluate_vla(type);
+	// The sizes of the parameters are evaluated on entry.
+	for (int i = 1; i < type->n; i++)
+		type_evaluate_vla(type->children[i]);
 
 	struct jump_blocks jump_blocks = { 0 };
 	parse_block(&jump_blocks);
diff --git a/src/types.c b/src/types.c
index 7053a39..08e926b 100644
--- a/src/types.c
+++ b/src/types.c
@@ -51,8 +51,8 @@ static int compare_types(struct type *a, struct type **a_children,
 		break;
 
 	case TY_VARIABLE_LENGTH_ARRAY:
-		if (a->variable_length_array.length_expr !=
-			b->variable_length_array.length_expr)
+		if (a->variable_length_array.length !=
+			b->variable_length_array.length)
 			return 0;
 		break;
 
@@ -92,7 +92,7 @@ static uint32_t type_hash(struct type *type, struct type **children) {
 	case TY_INCOMPLETE_ARRAY:
 		break;
 	case TY_VARIABLE_LENGTH_ARRAY:
-		hash ^= hash32((size_t)type->variable_length_array.length_expr);
+		hash ^= hash32((size_t)type->variable_length_array.length);
 		break;
 	default:
 		NOTIMP();
@@ -414,11 +414,15 @@ struct expr *type_sizeof(struct type *type) {
 	if (type_has_variable_size(type)) {
 		switch (type->type) {
 		case TY_VARIABLE_LENGTH_ARRAY:
-			assert(type->variable_length_array.is_evaluated);
-			return EXPR_BINARY_OP(OP_MUL, EXPR_VAR(type->variable_length_array.length_var, type_simple(ST_INT), 0),
-								  type_sizeof(type->children[0]));
+			return EXPR_BINARY_OP(OP_MUL, expr_new((struct expr) {
+						.type = E_VLA_LENGTH,
+						.vla_length = type->variable_length_array.length
+					}), type_sizeof(type->children[0]));
 		case TY_ARRAY:
-			return EXPR_BINARY_OP(OP_MUL, EXPR_INT(type->array.length),
+			return EXPR_BINARY_OP(OP_MUL, expr_new((struct expr) {
+						.type = E_CONSTANT,
+						.constant = constant_simple_unsigned(abi_info.size_type, type->array.length)
+					}),
 								  type_sizeof(type->children[0]));
 		default:
 			ICE("Type can't have variable size");
@@ -443,15 +447,23 @@ struct expr *type_alignof(struct type *type) {
 }
 
 void type_evaluate_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
-		type_evaluate_vla(type->children[i]);
+	// The sizes in the parameters of a function belong to its definition.
+	if (type->n)
+		type_evaluate_vla(type->children[0]);
 
-	if (type->type == TY_VARIABLE_LENGTH_ARRAY) {
-		if (!type->variable_length_array.is_evaluated) {
-			type->variable_length_array.length_var = expression_to_size_t(type->variable_length_array.length_expr);
-		}
-		type->variable_length_array.is_evaluated = 1;
-	}
+	if (type->type == TY_VARIABLE_LENGTH_ARRAY)
+		type_evaluate_vla_length(type->variable_length_array.length);
+}
+
+// The length is evaluated only the first time.
+struct node *type_evaluate_vla_length(struct vla_length *length) {
+	if (!length->expr)
+		ERROR_NO_POS("[*] is only allowed in function prototypes");
+
+	if (!length->var)
+		length->var = expression_to_size_t(length->expr);
+
+	return length->var;
 }
 
 // Is it a variable length array, or derived from one?
diff --git a/src/types.h b/src/types.h
index 6a6db09..3157b76 100644
--- a/src/types.h
+++ b/src/types.h
@@ -77,9 +77,7 @@ struct type {
 			size_t length;
 		} array;
 		struct {
-			int is_evaluated;
-			struct node *length_var;
-			struct expr *length_expr;
+			struct vla_length *length;
 		} variable_length_array;
 		struct {
 			int is_variadic;
@@ -95,6 +93,12 @@ struct type {
 	struct type *children[];
 };
 
+// Shared by all variants of a variable length array type.
+struct vla_length {
+	struct expr *expr; // NULL for [*].
+	struct node *var; // NULL until evaluated.
+};
+
 struct struct_data {
 	struct string_view name;
 
@@ -142,6 +146,7 @@ struct type *type_adjust_parameter(struct type *type);
 struct type *type_remove_qualifications(struct type *type);
 
 void type_evaluate_vla(struct type *type);
+struct node *type_evaluate_vla_length(struct vla_length *length);
 int type_is_variably_modified(struct type *type);
 
 int type_search_member(struct type *type, struct string_view name,
-- 
2.43.0


From e553177a534faa4fb4d55658c28b28c2b0417b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:46 +0000
Subject: [PATCH 62/66] fix: diagnose empty include paths, malformed UTF-8,
 malformed stringized literals and huge array designators

property=C23
---
 src/parser/declaration.c         |  4 ++++
 src/preprocessor/directives.c    |  3 +++
 src/preprocessor/string_concat.c | 17 ++++++++---------
 src/utf8.c                       | 15 ++++++++++++---
 src/utf8.h                       |  2 +-
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 1fda418..c34ebea 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,6 +12,7 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
 
 static int anonymous_enum_counter = 0, anonymous_struct_counter = 0, local_variable_counter = 0;
@@ -1189,6 +1190,9 @@ static void parse_designators(struct initializer_path *path) {
 
 			assert(type_is_simple(c->data_type, ST_ULLONG));
 
+			if (c->uint_d >= INT_MAX)
+				ERROR(T0->pos, "Array designator is too large.");
+
 			if (level->type->type == TY_ARRAY && c->uint_d >= (uint64_t)level->type->array.length)
 				ERROR(T0->pos, "Array designator is outside of %s.", dbg_type(level->type));
 
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 32d4a3d..8af0167 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -730,6 +730,9 @@ struct token directiver_next(void) {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
+				if (!path.len)
+					ERROR(directive.pos, "Empty path to #include directive.");
+
 				directiver_push_input(sv_to_str(path), system);
 			} else if (sv_string_cmp(name, "pragma")) {
 				if (directiver_handle_pragma()) {
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 7df6105..658282c 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -48,7 +48,7 @@ static uint32_t take_utf8(struct string_view *input) {
 	assert(input->len);
 
 	const char *advance = input->str;
-	uint32_t codepoint = utf8_decode(&advance);
+	uint32_t codepoint = utf8_decode(&advance, input->len);
 	sv_tail(input, advance - input->str);
 
 	return codepoint;
@@ -120,7 +120,7 @@ static enum string_type take_string_prefix(struct string_view *input) {
 	return STRING_DEFAULT;
 }
 
-static void escape_string_to_buffer(struct string_view input, enum string_type type) {
+static void escape_string_to_buffer(struct position pos, struct string_view input, enum string_type type) {
 	assert(input.len);
 
 	char end_char = input.str[0];
@@ -131,10 +131,9 @@ static void escape_string_to_buffer(struct string_view input, enum string_type t
 
 	while (escape_char_to_buffer(&input, end_char, type));
 
-	if (!(input.len && input.str[0] == end_char)) {
-		printf("Left over: \"%.*s\"\n", input.len, input.str);
-	}
-	assert(input.len && input.str[0] == end_char);
+	// The operator # can make strings that are not valid literals.
+	if (input.len != 1 || input.str[0] != end_char)
+		ERROR(pos, "Invalid string literal.");
 }
 
 struct token string_concat_next(void) {
@@ -176,7 +175,7 @@ struct token string_concat_next(void) {
 
 		buffer_start();
 		for (unsigned i = 0; i < string_tokens_size; i++)
-			escape_string_to_buffer(string_tokens[i].str, combined_type);
+			escape_string_to_buffer(string_tokens[i].pos, string_tokens[i].str, combined_type);
 		struct token ret = string_tokens[0];
 
 		switch (combined_type) {
@@ -219,7 +218,7 @@ struct token string_concat_next(void) {
 			ERROR(t.pos, "Can't have character constant with u8 prefix.");
 
 		buffer_start();
-		escape_string_to_buffer(t.str, type);
+		escape_string_to_buffer(t.pos, t.str, type);
 		t.str = buffer_get();
 
 		if (!t.str.len)
@@ -248,7 +247,7 @@ struct token string_concat_next(void) {
 intmax_t escaped_character_constant_to_int(struct token t, int *is_unsigned) {
 	enum string_type type = take_string_prefix(&t.str);
 	buffer_start();
-	escape_string_to_buffer(t.str, type);
+	escape_string_to_buffer(t.pos, t.str, type);
 
 	// No need to call buffer_get(), since we do not need
 	// a permanent string_view.
diff --git a/src/utf8.c b/src/utf8.c
index bf59665..9619a11 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -36,13 +36,22 @@ int utf8_code_point_length(unsigned char s) {
 	} else if ((s & 0xF8) == 0xF0) {
 		return 4;
 	} else {
-		ICE("Incorrectly encoded UTF-8, starting with %c\n", s);
+		ICE("Incorrectly encoded UTF-8, starting with %X\n", s);
 	}
 }
 
-uint32_t utf8_decode(const char **start) {
+uint32_t utf8_decode(const char **start, int n) {
 	const unsigned char *s = (unsigned char *)*start;
 	int advance = 0;
+
+	int length = utf8_code_point_length(s[0]);
+	if (length > n)
+		ICE("Incomplete UTF-8 sequence, starting with %X\n", s[0]);
+	for (int i = 1; i < length; i++) {
+		if ((s[i] & 0xC0) != 0x80)
+			ICE("Incorrectly encoded UTF-8, starting with %X\n", s[0]);
+	}
+
 	uint32_t codepoint = 0;
 	if ((s[0] & 0x80) == 0) {
 		codepoint |= (s[0] & ~0x80) << (6 * 0);
@@ -63,7 +72,7 @@ uint32_t utf8_decode(const char **start) {
 		codepoint |= (s[3] & ~0xC0) << (6 * 0);
 		advance = 4;
 	} else {
-		ICE("Incorrectly encoded UTF-8, starting with %.16s, %X\n", *start);
+		ICE("Incorrectly encoded UTF-8, starting with %X\n", s[0]);
 	}
 
 	*start += advance;
diff --git a/src/utf8.h b/src/utf8.h
index 5257409..c0a494e 100644
--- a/src/utf8.h
+++ b/src/utf8.h
@@ -7,7 +7,7 @@
 void utf8_encode(uint32_t codepoint, char output[4]);
 
 // Decode code point starting with *start, and then advance to next code point.
-uint32_t utf8_decode(const char **start);
+uint32_t utf8_decode(const char **start, int n);
 
 // Get length of code point starting at s.
 int utf8_code_point_length(unsigned char s);
-- 
2.43.0


From 2cb9675a0622af8df6ed9cf8e1e75b6bf44d46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:18 +0000
Subject: [PATCH 63/66] fix: honour -E with -o, -U and -MD, name dependency
 files after any output file and diagnose malformed command lines

property=C27
---
 src/arguments.c  | 15 ++++++++++----
 src/linker/elf.c |  3 +++
 src/main.c       | 54 ++++++++++++++++++++++++++++++++++--------------
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/arguments.c b/src/arguments.c
index 322fd12..94ec4af 100644
--- a/src/arguments.c
+++ b/src/arguments.c
@@ -43,7 +43,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 	} state = S_OPERAND;
 
 	int i = 1;
-	const char *next_arg = NULL;
+	const char *next_arg = NULL, *flag = NULL;
 	for (;;) {
 		const char *arg = NULL;
 		if (next_arg) {
@@ -58,6 +58,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 		enum state next_state = S_OPERAND;
 
 		if (state == S_OPERAND) {
+			flag = arg;
 			if (arg[0] == '-' && arg[1] == 'M') {
 				arg += 2;
 
@@ -69,6 +70,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'D': ret.flag_MD = 1; cont = 0; break;
 				case 'T': next_state = S_MT; break;
 				case 'F': next_state = S_MF; break;
+				default: ERROR_NO_POS("Unrecognized flag: \"%s\"", flag);
 				}
 
 				arg++;
@@ -77,12 +79,12 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", flag);
 					}
 				}
 			} else if (arg[0] == '-' && arg[1] == 's' && arg[2] == 't' && arg[3] == 'd') {
 				// Quietly ignored.
-			} else if (*arg == '-') {
+			} else if (arg[0] == '-' && arg[1]) {
 				arg++;
 
 				int cont = 1, ignore = 0;
@@ -103,6 +105,8 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'L': next_state = S_LIBRARY_DIR; break;
 				case 'l': next_state = S_LIBRARY; break;
 				case 'f': next_state = S_FLAG; break;
+
+				default: cont = 0; break;
 				}
 
 				arg++;
@@ -111,7 +115,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", flag);
 					}
 				}
 			} else {
@@ -142,6 +146,9 @@ struct arguments arguments_parse(int argc, char **argv) {
 		state = next_state;
 	}
 
+	if (state != S_OPERAND)
+		ERROR_NO_POS("Missing argument to \"%s\"", flag);
+
 	ret.n_operand = operand_size;
 	ret.operands = operands;
 
diff --git a/src/linker/elf.c b/src/linker/elf.c
index 8497d3c..a0eb176 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -788,6 +788,9 @@ static void elf_write(const char *path, struct elf_file *elf) {
 
 static struct elf_file *elf_read(const char *path) {
 	FILE *fp = fopen(path, "rb");
+
+	if (!fp)
+		ERROR_NO_POS("Could not open \"%s\".", path);
 	struct elf_file elf = { 0 };
 
 	int not_elf = read_header(fp, &elf);
diff --git a/src/main.c b/src/main.c
index e1b65ee..23a20f6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -60,18 +60,22 @@ static struct string_view get_basename(const char *path) {
 }
 
 static int is_ext_file(struct string_view view, char ext) {
-	return view.str[view.len - 2] == '.' &&
+	return view.len >= 2 && view.str[view.len - 2] == '.' &&
 		view.str[view.len - 1] == ext;
 }
 
 static char *dependency_path_from_outfile(const char* path) {
 	int len = strlen(path);
 
-	if (len <= 2 || (strcmp(path + len - 2, ".o") != 0 &&
-					 strcmp(path + len - 2, ".s") != 0))
-		return NULL;
+	// Replace the suffix of the file name, if it has one.
+	for (int i = len - 1; i > 0 && path[i] != '/' && path[i - 1] != '/'; i--) {
+		if (path[i] == '.') {
+			len = i;
+			break;
+		}
+	}
 
-	return allocate_printf("%.*s.d", len - 2, path);
+	return allocate_printf("%.*s.d", len, path);
 }
 
 static void add_definition(const char *str) {
@@ -102,7 +106,6 @@ static void set_flags(struct arguments *arguments) {
 			codegen_flags.debug_stack_size = 1;
 			if (flag[16] == '=') {
 				codegen_flags.debug_stack_min = atoi(flag + 17);
-				printf("DBG STACK MIN: %d\n", codegen_flags.debug_stack_min);
 			}
 		} else if (strcmp(flag, "abi=ms") == 0) {
 			abi = ABI_MICROSOFT;
@@ -112,7 +115,6 @@ static void set_flags(struct arguments *arguments) {
 			mingw_workarounds = 1;
 		} else if (strncmp(flag, "dump-ir=", 8) == 0) {
 			dump_ir_path = strdup(flag + 8);
-			printf("Dumping to %s\n", dump_ir_path);
 		}
 	}
 }
@@ -191,12 +193,12 @@ static void compile_file(const char *path,
 
 	codegen();
 
-	if (arguments->flag_c) {
+	if (arguments->flag_S) {
+	} else if (arguments->flag_c) {
 		switch (abi) {
 		case ABI_SYSV: elf_write_object(outfile, &out_object); break;
 		case ABI_MICROSOFT: coff_write_object(outfile, &out_object); break;
 		}
-	} else if (arguments->flag_S) {
 	} else {
 		ADD_ELEMENT(object_size, object_cap, objects) = out_object;
 	}
@@ -255,12 +257,27 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 		add_definition(arguments->defines[i]);
 
 	for (int i = 0; i < arguments->n_undefine; i++)
-		NOTIMP();
+		define_remove(arguments->undefines[i]);
 
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
 
-	preprocessor_print(path, stdout);
+	if (arguments->outfile) {
+		FILE *fp = file_open_write(arguments->outfile, "w");
+		preprocessor_print(path, fp);
+		file_close_write(fp, arguments->outfile);
+	} else {
+		preprocessor_print(path, stdout);
+	}
+
+	if (arguments->flag_MD) {
+		struct string_view basename = get_basename(path);
+		const char *object_path = allocate_printf("%.*s.o", basename.len - 2, basename.str);
+
+		preprocessor_finish_writing_dependencies(
+			arguments->mt_path ? arguments->mt_path : object_path,
+			arguments->mf_path ? arguments->mf_path : dependency_path_from_outfile(object_path));
+	}
 
 	preprocessor_reset();
 	ir_reset();
@@ -275,17 +292,19 @@ int main(int argc, char **argv) {
 	int will_link = !(arguments.flag_S || arguments.flag_c || arguments.flag_E);
 
 	if (will_link) {
-		printf("Warning! Emitting executables is still work in progress.\n");
+		fprintf(stderr, "Warning! Emitting executables is still work in progress.\n");
 	}
 
 	if (arguments.flag_g)
-		printf("Warning: -g flag is ignored.\n");
+		fprintf(stderr, "Warning: -g flag is ignored.\n");
 
 	if (arguments.flag_s)
 		NOTIMP();
 
-	if (arguments.n_operand != 1 && arguments.outfile &&
-		(arguments.flag_S || arguments.flag_c)) {
+	if (arguments.n_operand == 0)
+		ERROR_NO_POS("No input files.");
+
+	if (arguments.n_operand != 1 && arguments.outfile && !will_link) {
 		ERROR_NO_POS("Can't have multiple input files with -o.");
 	}
 
@@ -306,7 +325,10 @@ int main(int argc, char **argv) {
 		if (is_ext_file(basename, 'c')) {
 			compile_file(arguments.operands[i], &arguments);
 		} else if (is_ext_file(basename, 'o')) {
-			assert(!(arguments.flag_S || arguments.flag_c));
+			if (!will_link) {
+				fprintf(stderr, "Warning: %s is not used, since nothing is linked.\n", arguments.operands[i]);
+				continue;
+			}
 			struct object *object = elf_read_object(arguments.operands[i]);
 			if (!object)
 				NOTIMP();
-- 
2.43.0


From a278201648d381f948fdb67484fa490bf2e8892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:45 +0000
Subject: [PATCH 64/66] fix: write 64-bit addends of COFF address relocations

A pointer initialised with an address 2^31 bytes or more away from its symbol
was rejected as not implemented when an object was written.

property=C29
---
 src/linker/coff.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linker/coff.c b/src/linker/coff.c
index 9ea0024..483f122 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -254,12 +254,13 @@ static struct coff_file *coff_from_object(struct object *object) {
 			// Since COFF relocations contain no addend,
 			// this will have to be written to the data of the section instead.
 
-			if (relocation->add < INT32_MIN || relocation->add > INT32_MAX)
+			if (relocation->type != RELOCATE_64 &&
+				(relocation->add < INT32_MIN || relocation->add > INT32_MAX))
 				NOTIMP();
 			if (relocation->offset > INT32_MAX)
 				NOTIMP();
 
-			int32_t addend = relocation->add;
+			int64_t addend = relocation->add;
 			uint32_t offset = relocation->offset;
 			uint16_t type = 0;
 			int size = 0;
-- 
2.43.0


From e14d7e4a6ee87ec6f0b46a70f747737508ccae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:32 +0000
Subject: [PATCH 65/66] fix: diagnose an extra empty argument to a macro

property=C22
---
 src/preprocessor/macro_expander.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 2bb8911..d76175c 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -341,6 +341,8 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			}
 		}
 
+		if (n_args && !def->vararg && !finished)
+			ERROR(lpar.pos, "Wrong number of arguments to macro");
 
 		if (def->vararg && !finished) {
 			vararg_included = 1;
-- 
2.43.0


From 73f16f2cf4f6a72db25b6e00dcfbecfe03aa29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:54 +0000
Subject: [PATCH 66/66] fix: diagnose function specifiers and storage classes
 of declarations that declare nothing

property=C22
---
 src/parser/declaration.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index c34ebea..451ad42 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1656,8 +1656,16 @@ static int parse_declaration_in(int external, int is_for_loop) {
 		return parse_static_assert();
 	}
 
-	if (TACCEPT(T_SEMI_COLON))
+	if (T0->type == T_SEMI_COLON) {
+		if (s.fs.inline_n || s.fs.noreturn_n)
+			ERROR(T0->pos, "Only functions can be inline or _Noreturn.");
+
+		if (external && (s.scs.auto_n || s.scs.register_n))
+			ERROR(T0->pos, "Invalid storage-class specifier in global declaration.");
+
+		TNEXT();
 		return 1;
+	}
 
 	int was_func = 0, first = 1;
 	do {
-- 
2.43.0

