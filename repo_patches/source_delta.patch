From e85c7a26b6bfbec06243ea10918e41d64a39a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 01/45] fix: accept small negative definitions in 8-bit
 references at link time

---
 wlalink/write.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 77a8f46..a45478a 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2163,7 +2163,10 @@ int fix_references(void) {
       }
       /* direct / relative 8-bit with a value definition */
       else if (l->status == LABEL_STATUS_DEFINE && (r->type == REFERENCE_TYPE_DIRECT_8BIT || r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
-        i = ((int)l->address) & 0xFFFF;
+        i = (int)l->address;
+        /* small negative values are 8-bit values as such, of others we look at the 16-bit address */
+        if (i < -128 || i >= 0)
+          i &= 0xFFFF;
         if (i > 255 || i < -128) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n",
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
-- 
2.43.0


From 53397a1ad50ab6b5f85935f695982113b345954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 02/45] fix: refuse values that do not fit in data computed
 after its use in the assembler

---
 phase_4.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/phase_4.c b/phase_4.c
index e57e6e3..99d5361 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -98,6 +98,32 @@ static int _print_fscanf_error_accessing_internal_data_stream(int file_name_id,
 }
 
 
+static int _check_8bit_definition(int value) {
+
+  /* small negative values are 8-bit values as such, of others we look at the 16-bit address, as the linker does */
+  if (value < -128 || value >= 0)
+    value &= 0xFFFF;
+
+  if (value > 255) {
+    print_text(NO, "%s:%d: INTERNAL_PHASE_2: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n", get_file_name(s_filename_id), s_line_number, value, g_tmp);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
+static int _check_computation_range(int value, int min, int max, int bits) {
+
+  if (value < min || value > max) {
+    print_text(NO, "%s:%d: INTERNAL_PHASE_2: Result (%d/$%x) of a computation is out of %d-bit range.\n", get_file_name(s_filename_id), s_line_number, value, value, bits);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
 static int _try_to_calculate_stack_calculation_define(struct definition *definition) {
 
   struct stack *stack = find_stack_calculation((int)definition->value, YES);
@@ -1149,6 +1175,13 @@ int phase_4(void) {
         stack->is_function_body = YES;
 
         o = (int)r;
+        if (c == '-') {
+          if (_check_computation_range(o, 0, 510, 9) == FAILED)
+            return FAILED;
+        }
+        else if (_check_computation_range(o, -128, 255, 8) == FAILED)
+          return FAILED;
+
         if (c == '-') {
           if ((o & 1) == 1) {
             print_text(NO, "%s:%d: INTERNAL_PHASE_2: The RAM address must be even.\n", get_file_name(s_filename_id), s_line_number);
@@ -1227,6 +1260,8 @@ int phase_4(void) {
         stack->is_function_body = YES;
 
         o = (int)r;
+        if (_check_computation_range(o, -32768, 65535, 16) == FAILED)
+          return FAILED;
 
         /* create a what-we-are-doing message for mem_insert*() warnings/errors */
         snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing a 16-bit computation", get_file_name(s_filename_id), s_line_number);
@@ -1401,6 +1436,8 @@ int phase_4(void) {
         stack->is_function_body = YES;
 
         o = (int)r;
+        if (_check_computation_range(o, -8388608, 16777215, 24) == FAILED)
+          return FAILED;
 
         /* create a what-we-are-doing message for mem_insert*() warnings/errors */
         snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing a 24-bit computation", get_file_name(s_filename_id), s_line_number);
@@ -1924,6 +1961,8 @@ int phase_4(void) {
 
           if (tmp_def->type != DEFINITION_TYPE_STACK) {
             o = (int)tmp_def->value;
+            if (_check_8bit_definition(o) == FAILED)
+              return FAILED;
 
             /* create a what-we-are-doing message for mem_insert*() warnings/errors */
             snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing an 8-bit reference", get_file_name(s_filename_id), s_line_number);
@@ -1985,6 +2024,8 @@ int phase_4(void) {
               }
               o = o >> 1;
             }
+            else if (_check_8bit_definition(o) == FAILED)
+              return FAILED;
 
             /* create a what-we-are-doing message for mem_insert*() warnings/errors */
             snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing an 8-bit reference", get_file_name(s_filename_id), s_line_number);
-- 
2.43.0


From ef5edaab556a833ee8b249724fc081bb079c889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 03/45] fix: exported definitions can be divisors and modulos
 in link-time calculations

---
 wlalink/analyze.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 283134a..30b4380 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -755,6 +755,7 @@ int collect_dlr(void) {
 
         READ_DOU;
         l->address = dou;
+        l->rom_address = dou;
         l->base = 0;
         l->file_id = g_obj_tmp->id;
         l->section_status = OFF;
@@ -1019,6 +1020,7 @@ int collect_dlr(void) {
 
         READ_DOU;
         l->address = dou;
+        l->rom_address = dou;
         l->bank = g_obj_tmp->bank;
         l->slot = g_obj_tmp->slot;
         l->base = g_obj_tmp->base;
-- 
2.43.0


From 4138bb7ee0ec2d283367e35d5f51dd424b889810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 04/45] fix: link-time division and modulo by an address whose
 ROM offset is zero

---
 wlalink/write.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index a45478a..93f22c1 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3723,7 +3723,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         break;
       case SI_OP_MODULO:
-        if (((int)v_ram[t - 1]) == 0 || ((int)v_rom[t - 1]) == 0) {
+        if (((int)v_ram[t - 1]) == 0) {
           print_text(NO, "%s: %s:%d: COMPUTE_STACK: Modulo by zero.\n", get_file_name(sta->file_id),
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
           return FAILED;
@@ -3734,14 +3734,15 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
           return FAILED;
         }
         v_ram[t - 2] = (int)v_ram[t - 2] % (int)v_ram[t - 1];
-        v_rom[t - 2] = (int)v_rom[t - 2] % (int)v_rom[t - 1];
+        /* the offset in the ROM image can be zero even though the address is not */
+        v_rom[t - 2] = ((int)v_rom[t - 1]) == 0 ? 0 : (int)v_rom[t - 2] % (int)v_rom[t - 1];
         _pass_on_slot(slot, t);
         _pass_on_base(base, t);
         _pass_on_bank(bank, t);
         t--;
         break;
       case SI_OP_DIVIDE:
-        if (v_ram[t - 1] == 0.0 || v_rom[t - 1] == 0.0) {
+        if (v_ram[t - 1] == 0.0) {
           print_text(NO, "%s: %s:%d: COMPUTE_STACK: Division by zero.\n", get_file_name(sta->file_id),
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
           return FAILED;
@@ -3752,7 +3753,8 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
           return FAILED;
         }
         v_ram[t - 2] /= v_ram[t - 1];
-        v_rom[t - 2] /= v_rom[t - 1];
+        /* the offset in the ROM image can be zero even though the address is not */
+        v_rom[t - 2] = v_rom[t - 1] == 0.0 ? 0.0 : v_rom[t - 2] / v_rom[t - 1];
         _pass_on_slot(slot, t);
         _pass_on_base(base, t);
         _pass_on_bank(bank, t);
-- 
2.43.0


From 1bf21654dd4c65f6c90c98cf017db3f1478c70d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:07 +0000
Subject: [PATCH 05/45] fix: character literals of commas and braces inside
 calculations

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index cb3a2f1..e200d7d 100644
--- a/parse.c
+++ b/parse.c
@@ -781,6 +781,10 @@ int input_number(void) {
         break;
       else if (ee == ' ')
         spaces++;
+      else if (ee == '\'' && g_buffer[p] != 0x0A && g_buffer[p+1] == '\'') {
+        /* skip character literals */
+        p += 2;
+      }
       else if (ee == '"' && g_buffer[p-2] != '\\') {
         /* skip quoted strings */
         while (ee != 0x0A) {
-- 
2.43.0


From 55e8f9a09e4095ae773fecf46dd2711437f23fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 06/45] fix: immediates of 16-bit registers are 16 bits on the
 6801 and 6809

---
 i6801.c | 12 ++++++------
 i6809.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/i6801.c b/i6801.c
index 1ef5b36..d620206 100644
--- a/i6801.c
+++ b/i6801.c
@@ -30,7 +30,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB x,X", 0xEB, 4, 1 },
   { "ADDB x", 0xDB, 4, 1 },
   { "ADDB ?", 0xFB, 2, 0 },
-  { "ADDD #x", 0xC3, 1, 0 },                  
+  { "ADDD #?", 0xC3, 2, 0 },                  
   { "ADDD x,X", 0xE3, 4, 1 },
   { "ADDD x", 0xD3, 4, 1 },
   { "ADDD ?", 0xF3, 2, 0 },
@@ -43,7 +43,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB.B x,X", 0xEB, 4, 1 },
   { "ADDB.B x", 0xDB, 4, 1 },
   { "ADDB.W ?", 0xFB, 2, 0 },
-  { "ADDD.B #x", 0xC3, 1, 0 },                
+  { "ADDD.W #?", 0xC3, 2, 0 },                
   { "ADDD.B x,X", 0xE3, 4, 1 },
   { "ADDD.B x", 0xD3, 4, 1 },
   { "ADDD.W ?", 0xF3, 2, 0 },
@@ -255,7 +255,7 @@ struct instruction g_instructions_table[] = {
   { "LDAB x,X", 0xE6, 4, 1 },
   { "LDAB x", 0xD6, 4, 1 },
   { "LDAB ?", 0xF6, 2, 0 },
-  { "LDD #x", 0xCC, 1, 0 },                   
+  { "LDD #?", 0xCC, 2, 0 },                   
   { "LDD x,X", 0xEC, 4, 1 },
   { "LDD x", 0xDC, 4, 1 },
   { "LDD ?", 0xFC, 2, 0 },
@@ -268,7 +268,7 @@ struct instruction g_instructions_table[] = {
   { "LDAB.B x,X", 0xE6, 4, 1 },
   { "LDAB.B x", 0xD6, 4, 1 },
   { "LDAB.W ?", 0xF6, 2, 0 },
-  { "LDD.B #x", 0xCC, 1, 0 },                 
+  { "LDD.W #?", 0xCC, 2, 0 },                 
   { "LDD.B x,X", 0xEC, 4, 1 },
   { "LDD.B x", 0xDC, 4, 1 },
   { "LDD.W ?", 0xFC, 2, 0 },
@@ -435,7 +435,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB x,X", 0xE0, 4, 1 },
   { "SUBB x", 0xD0, 4, 1 },
   { "SUBB ?", 0xF0, 2, 0 },
-  { "SUBD #x", 0x83, 1, 0 },
+  { "SUBD #?", 0x83, 2, 0 },
   { "SUBD x,X", 0xA3, 4, 1 },
   { "SUBD x", 0x93, 4, 1 },
   { "SUBD ?", 0xB3, 2, 0 },
@@ -448,7 +448,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB.B x,X", 0xE0, 4, 1 },
   { "SUBB.B x", 0xD0, 4, 1 },
   { "SUBB.W ?", 0xF0, 2, 0 },
-  { "SUBD.B #x", 0x83, 1, 0 },
+  { "SUBD.W #?", 0x83, 2, 0 },
   { "SUBD.B x,X", 0xA3, 4, 1 },
   { "SUBD.B x", 0x93, 4, 1 },
   { "SUBD.W ?", 0xB3, 2, 0 },
diff --git a/i6809.c b/i6809.c
index 54928a6..c81157a 100644
--- a/i6809.c
+++ b/i6809.c
@@ -355,7 +355,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB x", 0xDB, 4, 1, 0 },
   { "ADDB ?", 0xFB, 2, 0, 0 },
 
-  { "ADDD #x", 0xC3, 1, 0, 0 },
+  { "ADDD #?", 0xC3, 2, 0, 0 },
   { "ADDD,X", 0xE3, 9, 0, B_(10000100) },
   { "ADDD,Y", 0xE3, 9, 0, B_(10100100) },
   { "ADDD,U", 0xE3, 9, 0, B_(11000100) },
@@ -1230,7 +1230,7 @@ struct instruction g_instructions_table[] = {
   { "CMPB x", 0xD1, 4, 1, 0 },
   { "CMPB ?", 0xF1, 2, 0, 0 },
 
-  { "CMPX #x", 0x8C, 1, 0, 0 },
+  { "CMPX #?", 0x8C, 2, 0, 0 },
   { "CMPX,X", 0xAC, 9, 0, B_(10000100) },
   { "CMPX,Y", 0xAC, 9, 0, B_(10100100) },
   { "CMPX,U", 0xAC, 9, 0, B_(11000100) },
@@ -2447,7 +2447,7 @@ struct instruction g_instructions_table[] = {
   { "LDB x", 0xD6, 4, 1, 0 },
   { "LDB ?", 0xF6, 2, 0, 0 },
 
-  { "LDD #x", 0xCC, 1, 0, 0 },
+  { "LDD #?", 0xCC, 2, 0, 0 },
   { "LDD,X", 0xEC, 9, 0, B_(10000100) },
   { "LDD,Y", 0xEC, 9, 0, B_(10100100) },
   { "LDD,U", 0xEC, 9, 0, B_(11000100) },
@@ -2532,7 +2532,7 @@ struct instruction g_instructions_table[] = {
   { "LDD x", 0xDC, 4, 1, 0 },
   { "LDD ?", 0xFC, 2, 0, 0 },
 
-  { "LDS #x", 0x10CE, 1, 0, 0 },
+  { "LDS #?", 0x10CE, 2, 0, 0 },
   { "LDS,X", 0x10EE, 9, 0, B_(10000100) },
   { "LDS,Y", 0x10EE, 9, 0, B_(10100100) },
   { "LDS,U", 0x10EE, 9, 0, B_(11000100) },
@@ -2702,7 +2702,7 @@ struct instruction g_instructions_table[] = {
   { "LDU x", 0xDE, 4, 1, 0 },
   { "LDU ?", 0xFE, 2, 0, 0 },
 
-  { "LDX #x", 0x8E, 1, 0, 0 },
+  { "LDX #?", 0x8E, 2, 0, 0 },
   { "LDX,X", 0xAE, 9, 0, B_(10000100) },
   { "LDX,Y", 0xAE, 9, 0, B_(10100100) },
   { "LDX,U", 0xAE, 9, 0, B_(11000100) },
@@ -4744,7 +4744,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB x", 0xD0, 4, 1, 0 },
   { "SUBB ?", 0xF0, 2, 0, 0 },
 
-  { "SUBD #x", 0x83, 1, 0, 0 },
+  { "SUBD #?", 0x83, 2, 0, 0 },
   { "SUBD,X", 0xA3, 9, 0, B_(10000100) },
   { "SUBD,Y", 0xA3, 9, 0, B_(10100100) },
   { "SUBD,U", 0xA3, 9, 0, B_(11000100) },
-- 
2.43.0


From 9ce84c1f5aed8baa4dd71b165901678723baf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 07/45] fix: labels in 8-bit operands that are not branches
 give their address, not a distance

---
 decode.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/decode.c b/decode.c
index cbedc25..b823b9e 100644
--- a/decode.c
+++ b/decode.c
@@ -1222,7 +1222,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 4 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -1447,7 +1447,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 11 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 11) {
@@ -5715,7 +5715,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 5 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -5891,7 +5891,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 5 ? "k%d d%d R%s " : "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6077,7 +6077,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                _output_assembled_instruction(s_instruction_tmp, s_instruction_tmp->type == 5 ? "R%s " : "Q%s ", g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6534,7 +6534,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -6715,7 +6715,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
-- 
2.43.0


From 383276611703b13d998e0a5adeec6e66929c325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 08/45] fix: 8-bit immediates of 128 to 255 on the 6800, 6801
 and 6809

---
 decode.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/decode.c b/decode.c
index b823b9e..e5e27e1 100644
--- a/decode.c
+++ b/decode.c
@@ -5705,8 +5705,9 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
-            print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
+          /* an immediate can also be unsigned */
+          if (z == SUCCEEDED && (g_parsed_int > (s_instruction_tmp->type == 5 ? 127 : 255) || g_parsed_int < -128)) {
+            print_error(ERROR_NUM, "Out of 8-bit range.\n");
             return FAILED;
           }
 
@@ -5881,8 +5882,9 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
-            print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
+          /* an immediate can also be unsigned */
+          if (z == SUCCEEDED && (g_parsed_int > (s_instruction_tmp->type == 5 ? 127 : 255) || g_parsed_int < -128)) {
+            print_error(ERROR_NUM, "Out of 8-bit range.\n");
             return FAILED;
           }
 
@@ -6060,8 +6062,9 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
-            print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
+          /* an immediate can also be unsigned */
+          if (z == SUCCEEDED && (g_parsed_int > (s_instruction_tmp->type == 5 ? 127 : 255) || g_parsed_int < -128)) {
+            print_error(ERROR_NUM, "Out of 8-bit range.\n");
             return FAILED;
           }
 
-- 
2.43.0


From d4cff15978b68a1fffb921b18d0858b95700db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 09/45] fix: immediates of the other 16-bit registers of the
 6809 are 16 bits

---
 i6809.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/i6809.c b/i6809.c
index c81157a..ce24bcf 100644
--- a/i6809.c
+++ b/i6809.c
@@ -1315,7 +1315,7 @@ struct instruction g_instructions_table[] = {
   { "CMPX x", 0x9C, 4, 1, 0 },
   { "CMPX ?", 0xBC, 2, 0, 0 },
 
-  { "CMPD #x", 0x1083, 1, 0, 0 },
+  { "CMPD #?", 0x1083, 2, 0, 0 },
   { "CMPD,X", 0x10A3, 9, 0, B_(10000100) },
   { "CMPD,Y", 0x10A3, 9, 0, B_(10100100) },
   { "CMPD,U", 0x10A3, 9, 0, B_(11000100) },
@@ -1400,7 +1400,7 @@ struct instruction g_instructions_table[] = {
   { "CMPD x", 0x1093, 4, 1, 0 },
   { "CMPD ?", 0x10B3, 2, 0, 0 },
 
-  { "CMPS #x", 0x118C, 1, 0, 0 },
+  { "CMPS #?", 0x118C, 2, 0, 0 },
   { "CMPS,X", 0x11AC, 9, 0, B_(10000100) },
   { "CMPS,Y", 0x11AC, 9, 0, B_(10100100) },
   { "CMPS,U", 0x11AC, 9, 0, B_(11000100) },
@@ -1485,7 +1485,7 @@ struct instruction g_instructions_table[] = {
   { "CMPS x", 0x119C, 4, 1, 0 },
   { "CMPS ?", 0x11BC, 2, 0, 0 },
 
-  { "CMPU #x", 0x1183, 1, 0, 0 },
+  { "CMPU #?", 0x1183, 2, 0, 0 },
   { "CMPU,X", 0x11A3, 9, 0, B_(10000100) },
   { "CMPU,Y", 0x11A3, 9, 0, B_(10100100) },
   { "CMPU,U", 0x11A3, 9, 0, B_(11000100) },
@@ -1570,7 +1570,7 @@ struct instruction g_instructions_table[] = {
   { "CMPU x", 0x1193, 4, 1, 0 },
   { "CMPU ?", 0x11B3, 2, 0, 0 },
 
-  { "CMPY #x", 0x108C, 1, 0, 0 },
+  { "CMPY #?", 0x108C, 2, 0, 0 },
   { "CMPY,X", 0x10AC, 9, 0, B_(10000100) },
   { "CMPY,Y", 0x10AC, 9, 0, B_(10100100) },
   { "CMPY,U", 0x10AC, 9, 0, B_(11000100) },
@@ -2617,7 +2617,7 @@ struct instruction g_instructions_table[] = {
   { "LDS x", 0x10DE, 4, 1, 0 },
   { "LDS ?", 0x10FE, 2, 0, 0 },
 
-  { "LDU #x", 0xCE, 1, 0, 0 },
+  { "LDU #?", 0xCE, 2, 0, 0 },
   { "LDU,X", 0xEE, 9, 0, B_(10000100) },
   { "LDU,Y", 0xEE, 9, 0, B_(10100100) },
   { "LDU,U", 0xEE, 9, 0, B_(11000100) },
@@ -2787,7 +2787,7 @@ struct instruction g_instructions_table[] = {
   { "LDX x", 0x9E, 4, 1, 0 },
   { "LDX ?", 0xBE, 2, 0, 0 },
 
-  { "LDY #x", 0x108E, 1, 0, 0 },
+  { "LDY #?", 0x108E, 2, 0, 0 },
   { "LDY,X", 0x10AE, 9, 0, B_(10000100) },
   { "LDY,Y", 0x10AE, 9, 0, B_(10100100) },
   { "LDY,U", 0x10AE, 9, 0, B_(11000100) },
-- 
2.43.0


From 90ad706882e546fd7de23d8344c967274db38038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 10/45] fix: STZ.W with an X-indexed address on the 65C02,
 65CE02 and HuC6280

---
 i65c02.c   | 2 +-
 i65ce02.c  | 2 +-
 ihuc6280.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/i65c02.c b/i65c02.c
index 2a96f2c..966a6aa 100644
--- a/i65c02.c
+++ b/i65c02.c
@@ -376,7 +376,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 4, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 4, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 4, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
diff --git a/i65ce02.c b/i65ce02.c
index 68f0d03..b756690 100644
--- a/i65ce02.c
+++ b/i65ce02.c
@@ -446,7 +446,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 4, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 4, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 4, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
diff --git a/ihuc6280.c b/ihuc6280.c
index b47f9c4..8625d74 100644
--- a/ihuc6280.c
+++ b/ihuc6280.c
@@ -382,7 +382,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 7, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 7, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 7, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
-- 
2.43.0


From 90d0cbf4bcb5ceed475c79a374f2babbc139b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 11/45] fix: JMP (|address,X) in WDC mode of the 65816

---
 i65816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/i65816.c b/i65816.c
index 60de61e..024dc78 100644
--- a/i65816.c
+++ b/i65816.c
@@ -320,10 +320,10 @@ struct instruction g_instructions_table[] = {
   { "JMP >&", 0x5C, 3, 0 },
   { "JML >&", 0x5C, 3, 0 },
   { "JMP (|?)", 0x6C, 2, 0 },
+  { "JMP (|?,X)", 0x7C, 2, 0 },
   { "JMP (?)", 0x6C, 2, 0 },
   { "JMP [|?]", 0xDC, 2, 0 },
   { "JML [?]", 0xDC, 2, 0 },
-  { "JMP (|?,X)", 0x7C, 2, 0 },
   { "JMP (?,X)", 0x7C, 2, 0 },
   { "JMP ?", 0x4C, 2, 1 },
   { "JMP &", 0x5C, 3, 0 },
-- 
2.43.0


From 27b80238199e67e8688ef057b4f3e25b5a089124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 12/45] fix: link-time offsets from index registers of the 6809
 are not distances

---
 decode.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decode.c b/decode.c
index e5e27e1..621cc03 100644
--- a/decode.c
+++ b/decode.c
@@ -6294,19 +6294,20 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->addressing_mode_bits, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "d%d R%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+                _output_assembled_instruction(s_instruction_tmp, strstr(s_instruction_tmp->string, "PCR") != NULL ? "d%d R%s " : "d%d Q%s ", s_instruction_tmp->addressing_mode_bits, g_label);
               else {
                 struct stack *stack;
           
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->addressing_mode_bits, g_latest_stack);
 
-                /* let's configure the stack so that all label references inside are relative */
                 stack = find_stack_calculation(g_latest_stack, YES);
 
                 if (stack == NULL)
                   return FAILED;
     
-                stack->relative_references = 1;
+                /* let's configure the stack so that all label references inside are relative */
+                if (strstr(s_instruction_tmp->string, "PCR") != NULL)
+                  stack->relative_references = 1;
               }
         
               g_source_index = s_parser_source_index;
-- 
2.43.0


From 5f12a390c4f005fe28dd662cbb957b0498ad4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 13/45] build: compile as C99 with GCC and Clang, so that line
 comments are accepted

---
 CMakeLists.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 152a17a..0dd5594 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -50,8 +50,8 @@ set(CMAKE_C_STANDARD 90)
 set(CMAKE_C_EXTENSIONS OFF)
 
 if(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-    set(CMAKE_C_STANDARD) # Empty because we use -ansi
-    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    set(CMAKE_C_STANDARD) # Empty because we use -std=c99
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -std=c99")
     string(REPLACE "-O2" "-O3" CMAKE_C_FLAGS_RELEASE "${CMAKE_C_FLAGS_RELEASE}")
     if(CMAKE_C_COMPILER_ID MATCHES "Clang" AND
             CMAKE_C_COMPILER_VERSION VERSION_LESS 3.8)
-- 
2.43.0


From 0ab01caad80259cec7c157d8e2dcf9038606cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 14/45] fix: labels in the remaining 8-bit Z80 operands give
 their address, not a distance

---
 decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decode.c b/decode.c
index 621cc03..78042f4 100644
--- a/decode.c
+++ b/decode.c
@@ -1557,7 +1557,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, g_latest_stack);
               
@@ -1715,7 +1715,7 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                    _output_assembled_instruction(s_instruction_tmp, "Q%s ", g_label);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                   
-- 
2.43.0


From 3d3a7c741be4d7fb96183709fe0ef579b4f63760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 15/45] fix: labels as Z80N NEXTREG operands and index
 displacements give their address, not a distance

---
 decode.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decode.c b/decode.c
index 78042f4..ac1ff68 100644
--- a/decode.c
+++ b/decode.c
@@ -1597,7 +1597,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
               
@@ -1708,7 +1708,7 @@ int evaluate_token(void) {
                   if (v == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, e);
                   else if (v == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "y%d R%s ", s_instruction_tmp->hex, labelx);
+                    _output_assembled_instruction(s_instruction_tmp, "y%d Q%s ", s_instruction_tmp->hex, labelx);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, h);
                   
@@ -1821,7 +1821,7 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
                   
-- 
2.43.0


From 15f5fc75718d91d5214cd27c404f05f97355ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 16/45] fix: do not look for a closing apostrophe beyond the
 end of the file

---
 include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include.c b/include.c
index 7f03a88..4e7db05 100644
--- a/include.c
+++ b/include.c
@@ -860,7 +860,7 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
       input++;
       break;
     case '\'':
-      if (*(input + 2) == '\'') {
+      if (input + 2 < input_end && *(input + 2) == '\'') {
         *output = '\'';
         input++;
         output++;
-- 
2.43.0


From e69f179177f6e06f4791c80d6019356a931b4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 17/45] fix: refuse out-of-range 16-bit constants in the
 two-byte-opcode instructions of the Z80 and Z80N

---
 decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decode.c b/decode.c
index ac1ff68..92341a3 100644
--- a/decode.c
+++ b/decode.c
@@ -1623,6 +1623,10 @@ int evaluate_token(void) {
           g_source_index = y;
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
+          if (z == SUCCEEDED && (g_parsed_int > 65535 || g_parsed_int < -32768)) {
+            print_error(ERROR_NUM, "Out of 16-bit range.\n");
+            return FAILED;
+          }
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
-- 
2.43.0


From c2d534c6303fea9ade0bdab14f3360de0d2c95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 18/45] fix: distances of relative 8-bit calculations above 127
 are out of reach

---
 wlalink/write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 93f22c1..856e005 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2911,7 +2911,8 @@ int compute_pending_calculations(void) {
     snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing pending calculation %s: %s:%d.", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
 
     if (sta->type == STACK_TYPE_8BIT) {
-      if (k < -128 || k > 255) {
+      /* distances of relative references are signed */
+      if (k < -128 || k > (sta->relative_references == YES ? 127 : 255)) {
         print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Result (%d/$%x) of a computation is out of 8-bit range.\n",
                 get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k, k);
         return FAILED;
-- 
2.43.0


From 131f269e88ee3e8e354a014ff1bfeb3d3a8ea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 19/45] fix: the Mega Drive checksum sums big endian words

---
 wlalink/compute.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 5714d9e..9a86a5c 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -201,7 +201,6 @@ int compute_gb_complement_check(void) {
 
 int compute_smd_checksum(void) {
 
-  unsigned short int *rom = (unsigned short int *)g_rom;
   int checksum, j;
 
   if (g_romsize < 0x1000) {
@@ -211,8 +210,9 @@ int compute_smd_checksum(void) {
 
   checksum = 0;
 
-  for (j = 0x100; j < g_romsize/2; j++)
-    checksum += rom[j];
+  /* the sum of the big endian 16-bit words after the header */
+  for (j = 0x200; j + 1 < g_romsize; j += 2)
+    checksum += (g_rom[j] << 8) | g_rom[j + 1];
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMD ROM checksum bytes");
-- 
2.43.0


From 8ba6ec71d54b133a6a5b56f6d06dd2f4e6f11a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 20/45] fix: refuse a definition given later that needs more
 bits than its .BITS field

---
 phase_4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase_4.c b/phase_4.c
index 99d5361..56dfbd9 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -877,6 +877,11 @@ int phase_4(void) {
               if (tmp_def->type != DEFINITION_TYPE_STACK) {
                 o = (int)tmp_def->value;
 
+                if (bits_to_define < 32 && (o & ~((1 << bits_to_define) - 1)) != 0) {
+                  print_text(NO, "%s:%d: INTERNAL_PHASE_2: We are defining %d bits, but the given value $%x (%d) uses more bits!\n", get_file_name(s_filename_id), s_line_number, bits_to_define, o, o);
+                  return FAILED;
+                }
+
                 /* create a what-we-are-doing message for mem_insert*() warnings/errors */
                 snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing .BITS' bits", get_file_name(s_filename_id), s_line_number);
 
-- 
2.43.0


From d265c3684fb781f43c8ab5914446bff85afa79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 21/45] fix: refuse negative SKIP and READ beyond the beginning
 of an .INCBIN file

---
 include.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include.c b/include.c
index 4e7db05..4acb0bd 100644
--- a/include.c
+++ b/include.c
@@ -377,6 +377,11 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
         return FAILED;
       }
 
+      if (g_parsed_int < 0) {
+        print_error(ERROR_DIR, "SKIP must not be negative, %d doesn't make sense.\n", g_parsed_int);
+        return FAILED;
+      }
+
       *skip = g_parsed_int;
     }
     /* READ bytes? */
@@ -584,8 +589,13 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
   else if (*read == 0)
     *read = file_size - *skip;
 
-  if (*skip + *read > file_size) {
-    print_error(ERROR_INB, "Overreading file \"%s\" by %d bytes.\n", g_full_name, *skip + *read - file_size);
+  if (*read < 0) {
+    print_error(ERROR_INB, "READ leaves out %d bytes more than there are in file \"%s\" after SKIP.\n", -*read, g_full_name);
+    return FAILED;
+  }
+
+  if (*read > file_size - *skip) {
+    print_error(ERROR_INB, "Overreading file \"%s\" by %d bytes.\n", g_full_name, *read - (file_size - *skip));
     return FAILED;
   }
 
-- 
2.43.0


From dea86cf03703cb3ebc210c2eb7cd7f3be2cb3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 22/45] fix: .FSEEK to a position before the beginning of the
 file is an error

---
 phase_1.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index d3af448..2f2eeba 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6312,7 +6312,10 @@ int directive_fseek(void) {
   
   skip_next_token();
   
-  fseek(f->f, position, mode);
+  if (fseek(f->f, position, mode) != 0 && g_makefile_skip_file_handling == NO) {
+    print_error(ERROR_DIR, ".FSEEK couldn't set the position of file \"%s\" (%s).\n", f->filename, f->name);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
-- 
2.43.0


From dbfe01fc1abf344b0e8a1f275afb155b34289737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 23/45] fix: :label and bank() of a label in a ROM with banks
 of different sizes

The linker divided the ROM address by the size of the label's slot.
---
 wlalink/write.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 856e005..7d1ce37 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3052,6 +3052,9 @@ int compute_pending_calculations(void) {
 }
 
 
+/* a flag for the slot of a value in a calculation: the value is the address of a label in RAM */
+#define SLOT_OF_RAM 0x1000
+
 static int _get_bank_of_address(int address, int slot) {
 
   int start_address, slot_size, j;
@@ -3078,11 +3081,23 @@ static int _get_bank_of_address(int address, int slot) {
     return -1;
   }
 
-  /* TODO: check if we can just use the banksize in every case and ignore slots[slot].size completely */
-  
-  slot_size = g_slots[slot].size;;
   start_address = 0;
   j = 0;
+
+  if (slot & SLOT_OF_RAM) {
+    /* the banks of RAM are as big as their SLOT */
+    slot_size = g_slots[slot & ~SLOT_OF_RAM].size;
+  }
+  else {
+    /* the banks of ROM can have different sizes */
+    for (; j < g_rombanks; j++) {
+      if (address >= start_address && address < start_address + g_banksizes[j])
+        return j;
+      start_address += g_banksizes[j];
+    }
+
+    slot_size = g_banksize;
+  }
   
   while (1) {
     if (address >= start_address && address < start_address + slot_size)
@@ -4510,6 +4525,11 @@ int parse_stack(struct stack *sta) {
       }
 
       si->slot = l->slot;
+      if (l->section_status == ON && l->section_struct != NULL && (l->section_struct->status == SECTION_STATUS_RAM_FREE ||
+                                                                   l->section_struct->status == SECTION_STATUS_RAM_SEMIFREE ||
+                                                                   l->section_struct->status == SECTION_STATUS_RAM_SEMISUBFREE ||
+                                                                   l->section_struct->status == SECTION_STATUS_RAM_FORCE))
+        si->slot |= SLOT_OF_RAM;
       si->base = l->base;
       si->bank = l->bank;
 
-- 
2.43.0


From 012e17508213e35737f1d302ec7ce5bd6843637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 24/45] fix: align RAM sections whose origin or slot is not
 aligned

The starting address was moved by the remainder instead of up to the next
multiple of the alignment.
---
 wlalink/write.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 7d1ce37..deed81d 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1113,7 +1113,8 @@ static int _write_ramsection_force(struct section *s) {
   /* align the starting address */
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
   address += s->offset;
 
   c = g_ram_slots[s->bank][s->slot];
@@ -1171,7 +1172,8 @@ static int _write_ramsection_semisubfree(struct section *s) {
   overflow = slot_address % s->alignment;
   address = 0;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   max_address = s->address;
@@ -1241,7 +1243,8 @@ static int _write_ramsection_free_and_semifree(struct section *s) {
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   slot_size = g_slots[s->slot].size;
-- 
2.43.0


From 0e63b2411358d16e3df306f163e8338c82f6311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 25/45] fix: .ENUM and .STRUCT wrote the padding of INSTANCEOF
 ... SIZE COUNT into the image

---
 phase_1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 2f2eeba..1c04e8e 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1840,8 +1840,10 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
 
           /* there is padding in the INSTANCEOF */
           if (padding > 0) {
-            if (s_enum_sizeof_pass == NO)
-              fprintf(g_file_out_ptr, "x%d %d ", padding, g_emptyfill);
+            if (s_enum_sizeof_pass == NO) {
+              if (g_in_enum == NO && g_in_struct == NO)
+                fprintf(g_file_out_ptr, "x%d %d ", padding, g_emptyfill);
+            }
             else {
               if (si->name[0] != '\0') {
                 if (_add_paddingof_definition(tmp, padding) == FAILED)
-- 
2.43.0


From ca2c9c9416ca6532c5918f0424f5dcc99a8fd9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 26/45] fix: .DSTRUCT claims and fills the fields that were not
 given

---
 phase_1.c |  6 ++++++
 phase_4.c | 25 +++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 1c04e8e..f539f29 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4423,9 +4423,15 @@ int directive_dstruct(void) {
     }
   }
   
+  /* mark start address of dstruct */
+  fprintf(g_file_out_ptr, "e%d -1 ", s->size);
+
   labels_only = NO;
   if (parse_dstruct_entry(iname, s, &labels_only, generate_labels) == FAILED)
     return FAILED;
+
+  /* mark end of .DSTRUCT */
+  fprintf(g_file_out_ptr, "e%d -2 ", s->size);
   
   /* generate padding */
   _generate_dstruct_padding(s, supplied_size);
diff --git a/phase_4.c b/phase_4.c
index 56dfbd9..440e52d 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2076,16 +2076,25 @@ int phase_4(void) {
       }
       else if (y == -2) {
         /* end of .DSTRUCT. make sure all memory is claimed. */
+        ind = s_dstruct_start - s_pc_full;
+        if (g_section_status == ON)
+          g_sec_tmp->i += ind;
+        s_pc_bank += ind;
+        s_pc_slot += ind;
+        s_pc_full += ind;
+
         while (s_pc_full < s_dstruct_start + x) {
-          if (g_section_status == OFF && g_rom_banks_usage_table[s_pc_full] == 0) {
-            g_rom_banks_usage_table[s_pc_full] = 2;
-            g_rom_banks[s_pc_full] = g_emptyfill;
+          if (g_section_status == OFF && (s_pc_bank >= g_banksize || s_pc_full >= g_max_address || g_rom_banks_usage_table[s_pc_full] == 0)) {
+            if (mem_insert(g_emptyfill) == FAILED)
+              return FAILED;
+          }
+          else {
+            if (g_section_status == ON)
+              g_sec_tmp->i++;
+            s_pc_bank++;
+            s_pc_slot++;
+            s_pc_full++;
           }
-          if (g_section_status == ON)
-            g_sec_tmp->i++;
-          s_pc_bank++;
-          s_pc_slot++;
-          s_pc_full++;
         }
       }
       else {
-- 
2.43.0


From 11ad6b482c133ca5d05406a56b518a58c78951da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 27/45] fix: .DSTRUCT of structures with padded, renumbered,
 dotted or nameless instances

---
 phase_1.c | 64 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index f539f29..aeb9ebe 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3862,6 +3862,17 @@ int directive_name_w65816(void) {
 
 /* this is used for legacy .DSTRUCT syntax, and only for generating labels in the new
  * .DSTRUCT syntax. */
+static int _get_instance_size(struct structure_item *it) {
+
+  if (it->defined_size > 0)
+    return it->defined_size;
+  if (it->instance->defined_size > 0)
+    return it->instance->defined_size;
+
+  return it->instance->size;
+}
+
+
 int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int generate_labels) {
 
   char tmpname[MAX_NAME_LENGTH*2+10];
@@ -3875,7 +3886,7 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
     if (verify_name_length(tmpname) == FAILED)
       return FAILED;
 
-    if (it->type != STRUCTURE_ITEM_TYPE_UNION) {
+    if (it->type != STRUCTURE_ITEM_TYPE_UNION && it->name[0] != '\0') {
       /* add field label */
       char full_label[MAX_NAME_LENGTH + 1];
 
@@ -3934,14 +3945,21 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
     }
     else if (it->type == STRUCTURE_ITEM_TYPE_INSTANCEOF) {
       /* handle .INSTANCEOF directive */
+      int instance_size = _get_instance_size(it), padding = instance_size - it->instance->size;
+
       /* update the naming prefix */
-      snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
+      if (it->name[0] == '\0')
+        snprintf(tmpname, sizeof(tmpname), "%s", iname);
+      else
+        snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
       if (verify_name_length(tmpname) == FAILED)
         return FAILED;
 
       if (it->num_instances == 1) {
         if (parse_dstruct_entry(tmpname, it->instance, labels_only, generate_labels) == FAILED)
           return FAILED;
+        if (padding > 0)
+          fprintf(g_file_out_ptr, "o%d 0 ", padding);
       }
       else {
         int labels_only_tmp = YES;
@@ -3954,12 +3972,7 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
         /* return to start of struct */
         fprintf(g_file_out_ptr, "o%d 0 ", -it->instance->size);
 
-        for (g = 1; g <= it->num_instances; g++) {
-          int size = it->instance->size;
-
-          if (it->defined_size > 0)
-            size = it->defined_size;
-          
+        for (g = it->start_from; g < it->start_from + it->num_instances; g++) {
           snprintf(tmpname, sizeof(tmpname), "%s.%s.%d", iname, it->name, g);
           if (verify_name_length(tmpname) == FAILED)
             return FAILED;
@@ -3968,18 +3981,31 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
             fprintf(g_file_out_ptr, "k%d L%s ", g_active_file_info_last->line_current, tmpname);
 
           if (generate_labels == YES) {
-            if (add_label_sizeof(tmpname, size) == FAILED)
+            if (add_label_sizeof(tmpname, instance_size) == FAILED)
               return FAILED;
           }
           if (parse_dstruct_entry(tmpname, it->instance, labels_only, generate_labels) == FAILED)
             return FAILED;
+          if (padding > 0)
+            fprintf(g_file_out_ptr, "o%d 0 ", padding);
         }
       }
 
       it = it->next;
       continue;
     }
-    else if (it->size == 0 || it->type == STRUCTURE_ITEM_TYPE_DOTTED) {
+    else if (it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF && it->num_instances == 1) {
+      /* labels only, this takes no space */
+      int labels_only_tmp = YES;
+
+      if (parse_dstruct_entry(tmpname, it->instance, &labels_only_tmp, generate_labels) == FAILED)
+        return FAILED;
+      fprintf(g_file_out_ptr, "o%d 0 ", -it->instance->size);
+
+      it = it->next;
+      continue;
+    }
+    else if (it->size == 0 || it->type == STRUCTURE_ITEM_TYPE_DOTTED || it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
       /* don't put data into empty structure items */
       it = it->next;
       continue;
@@ -4133,6 +4159,13 @@ int find_struct_field(struct structure *s, char *field_name, int *item_size, int
         us = us->next;
       }
     }
+    /* a nameless instance shares the names of its structure's fields */
+    else if (si->name[0] == '\0' && si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF) {
+      if (find_struct_field(si->instance, field_name, item_size, field_offset) == SUCCEEDED) {
+        *field_offset += offset;
+        return SUCCEEDED;
+      }
+    }
     else if (strcmp(field_name, si->name) == 0) {
       *field_offset = offset;
       *item_size = si->size;
@@ -4149,25 +4182,22 @@ int find_struct_field(struct structure *s, char *field_name, int *item_size, int
         else if (si->num_instances > 1) {
           int g;
           
-          for (g = 1; g <= si->num_instances; g++) {
+          for (g = si->start_from; g < si->start_from + si->num_instances; g++) {
             char num_str[256];
         
             snprintf(num_str, sizeof(num_str), "%d", g);
             if (strncmp(num_str, after_dot, strlen(num_str)) == 0) {
-              int size = si->instance->size;
-
-              if (si->defined_size > 0)
-                size = si->defined_size;
+              int size = _get_instance_size(si);
 
               /* entire string matched? */
               if (strcmp(num_str, after_dot) == 0) {
-                *field_offset = offset + (g-1) * size;
+                *field_offset = offset + (g - si->start_from) * size;
                 *item_size = size;
                 return SUCCEEDED;
               }
               /* only prefix matched */
               if (after_dot[strlen(num_str)] == '.' && find_struct_field(si->instance, after_dot + strlen(num_str) + 1, item_size, field_offset) == SUCCEEDED) {
-                *field_offset += offset + (g-1) * size;
+                *field_offset += offset + (g - si->start_from) * size;
                 return SUCCEEDED;
               }
             }
-- 
2.43.0


From 89c6b620d8545d5859e4c39bc173989093634037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 28/45] fix: discarding follows definitions, and computations
 in BANKHEADER sections

---
 wlalink/discard.c | 144 +++++++++++++++++++++++++++++-----------------
 1 file changed, 91 insertions(+), 53 deletions(-)

diff --git a/wlalink/discard.c b/wlalink/discard.c
index c5aa29a..afe07a4 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -66,14 +66,94 @@ int discard_unused_sections(void) {
 }
 
 
+static void _mark_used_stack(struct stack *st, struct section *user, int depth);
+
+
+/* find the section with the given ID, also among the bankheader sections */
+static struct section *_find_any_section(int section_status, int id) {
+
+  struct section *s;
+
+  if (section_status == OFF)
+    return NULL;
+
+  s = g_sec_bankhd_first;
+  while (s != NULL && s->id != id)
+    s = s->next;
+  if (s == NULL)
+    s = find_section(id);
+
+  return s;
+}
+
+
+/* mark the section of a label referenced. "scope" is the section where the label's name was written, "user" is the section that
+   makes the reference (NULL when it's not made inside a section) */
+static void _mark_referenced_section(char *name, struct section *scope, struct section *user, int depth) {
+
+  struct label *l;
+  struct section *s;
+  
+  find_label(name, scope, &l);
+
+  if (l == NULL)
+    return;
+
+  if (l->status == LABEL_STATUS_STACK) {
+    _mark_used_stack(find_stack((int)l->address, l->file_id), user, depth);
+    return;
+  }
+
+  if (l->section_status == ON) {
+    s = l->section_struct;
+    if (s == NULL) {
+      print_text(NO, "DISCARD_ITERATION: Internal error! Please send a bug report.\n");
+      return;
+    }
+    if (s != user && (user == NULL || user->alive == YES))
+      s->referenced++;
+  }
+}
+
+
+/* mark the sections of everything the computation needs referenced */
+static void _mark_stack_items(struct stack *st, struct section *scope, struct section *user, int depth) {
+
+  struct stack_item *si;
+  int i;
+
+  for (i = 0; i < st->stacksize; i++) {
+    si = &st->stack_items[i];
+    
+    if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO)
+      _mark_referenced_section(si->string, scope, user, depth);
+    else if (si->type == STACK_ITEM_TYPE_STACK)
+      _mark_used_stack(find_stack((int)si->value_ram, si->stack_file_id >= 0 ? si->stack_file_id : st->file_id), user, depth);
+  }
+}
+
+
+/* another computation (e.g., a definition) is used by "user" */
+static void _mark_used_stack(struct stack *st, struct section *user, int depth) {
+
+  struct section *s;
+
+  if (st == NULL || depth > 255)
+    return;
+
+  s = _find_any_section(st->section_status, st->section);
+  if (s != NULL && s != user && (user == NULL || user->alive == YES))
+    s->referenced++;
+
+  _mark_stack_items(st, s, user, depth + 1);
+}
+
+
 int discard_iteration(void) {
 
   struct reference *r;
-  struct stack_item *si;
-  struct section *s, *ss;
-  struct label *l;
+  struct section *s;
   struct stack *st;
-  int i;
   
   /* check section names for special characters '!', and check if the section is of proper type */
   s = g_sec_first;
@@ -94,64 +174,22 @@ int discard_iteration(void) {
       continue;
     }
 
-    if (r->section_status != 0)
-      s = find_section(r->section);
-    else
-      s = NULL;
-
-    find_label(r->name, s, &l);
-
-    if (l != NULL && l->section_status == ON) {
-      s = l->section_struct;
-      if (s == NULL)
-        print_text(NO, "DISCARD_ITERATION: Internal error! Please send a bug report.\n");
-      if (r->section_status == OFF)
-        s->referenced++;
-      else if (r->section != s->id) {
-        ss = g_sec_bankhd_first;
-        /* find it in special sections first */
-        while (ss != NULL && ss->id != r->section)
-          ss = ss->next;
-        if (ss == NULL)
-          ss = find_section(r->section);
-        if (ss->alive == YES)
-          s->referenced++;
-      }
-    }
+    s = _find_any_section(r->section_status, r->section);
+    _mark_referenced_section(r->name, s, s, 0);
+    
     r = r->next;
   }
 
   /* loop through computations */
   st = g_stacks_first;
   while (st != NULL) {
-    if (st->section_status != 0)
-      ss = find_section(st->section);
-    else
-      ss = NULL;
-
-    si = st->stack_items;
-    i = 0;
-    while (i != st->stacksize) {
-      if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO) {
-        find_label(si->string, ss, &l);
-
-        if (l != NULL && l->section_struct != NULL) {
-          s = l->section_struct;
-          if (st->section_status == OFF)
-            s->referenced++;
-          else if (st->section != s->id) {
-            if (ss->alive == YES)
-              s->referenced++;
-          }
-        }
-      }
-      si++;
-      i++;
-    }
+    s = _find_any_section(st->section_status, st->section);
+
+    _mark_stack_items(st, s, s, 0);
+
     st = st->next;
   }
 
-
   return SUCCEEDED;
 }
 
-- 
2.43.0


From c9a3af9bf3becef1d1e439ea9940ccaa3cb52bd7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 29/45] fix: Skipped branches have no effect whatever they
 contain, .ELIF after .ELSE is never taken

---
 parse.c   |  19 ++++++---
 phase_1.c | 120 +++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 92 insertions(+), 47 deletions(-)

diff --git a/parse.c b/parse.c
index e200d7d..dca7740 100644
--- a/parse.c
+++ b/parse.c
@@ -1697,8 +1697,12 @@ int get_next_token(void) {
         g_tmp[g_ss++] = '"';
         g_source_index += 2;
       }
-      else
+      else {
+        /* don't let the second \ of \\ escape a " */
+        if (g_buffer[g_source_index] == '\\' && g_buffer[g_source_index + 1] == '\\')
+          g_tmp[g_ss++] = g_buffer[g_source_index++];
         g_tmp[g_ss++] = g_buffer[g_source_index++];
+      }
     }
 
     if (g_buffer[g_source_index] == 0xA) {
@@ -1715,10 +1719,10 @@ int get_next_token(void) {
       g_ss = (int)strlen(g_tmp);
     }
 
-    if (process_string_for_special_characters(g_tmp, &g_ss) == FAILED)
-      return FAILED;
-
     if (g_get_next_token_use_substitution == YES) {
+      if (process_string_for_special_characters(g_tmp, &g_ss) == FAILED)
+        return FAILED;
+
       if (expand_variables_inside_string(g_tmp, g_sizeof_g_tmp, &g_ss) == FAILED)
         return FAILED;
     }
@@ -1754,8 +1758,11 @@ int get_next_token(void) {
         curly_brackets++;
       else if (e == '}') {
         curly_brackets--;
-        if (curly_brackets < 0)
-          break;
+        if (curly_brackets < 0) {
+          if (g_ss > 0)
+            break;
+          curly_brackets = 0;
+        }
       }
       if (curly_brackets == 0) {
         if (e == ',')
diff --git a/phase_1.c b/phase_1.c
index aeb9ebe..dae57b8 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -12608,6 +12608,44 @@ static int _decrease_ifdef(void) {
 
 /* parses only "if" directives. */
 /* this is separate from parse_directive so that enums and ramsections can reuse this */
+/* like get_next_token(), but after this g_current_directive is empty if the token wasn't a directive */
+static int _get_next_skipped_token(void) {
+
+  g_current_directive[0] = 0;
+
+  return get_next_token();
+}
+
+
+static int _is_if_directive(void) {
+
+  static char *names[] = { "IF", "IFDEF", "IFNDEF", "IFGR", "IFGREQ", "IFLE", "IFLEEQ", "IFEQ", "IFNEQ", "IFDEFM", "IFNDEFM", "IFEXISTS", NULL };
+  int i;
+
+  for (i = 0; names[i] != NULL; i++) {
+    if (strcaselesscmp(g_current_directive, names[i]) == 0)
+      return YES;
+  }
+
+  return NO;
+}
+
+
+/* did we skip past the end of the active macro? */
+static int _leaves_macro(int macro_active, int *macros) {
+
+  if (strcaselesscmp(g_current_directive, "MACRO") == 0)
+    (*macros)++;
+  else if (strcaselesscmp(g_current_directive, "ENDM") == 0) {
+    (*macros)--;
+    if (macro_active != 0 && *macros < 0)
+      return YES;
+  }
+
+  return NO;
+}
+
+
 int parse_if_directive(void) {
 
   char bak[256];
@@ -12616,7 +12654,7 @@ int parse_if_directive(void) {
   /* ELSE */
 
   if (strcaselesscmp(g_current_directive, "ELSE") == 0) {
-    int m, r;
+    int m, r, macros = 0;
 
     if (g_ifdef == 0) {
       print_error(ERROR_DIR, "There must be .IFxxx before .ELSE.\n");
@@ -12630,21 +12668,21 @@ int parse_if_directive(void) {
     /* disable macro decoding */
     g_macro_active = 0;
 
-    while (get_next_token() != FAILED) {
-      if (g_tmp[0] == '.') {
-        if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
-          r--;
-        if (strcaselesscmp(g_current_directive, "E") == 0)
-          break;
-        if (strcaselesscmp(g_current_directive, "IFDEF") == 0 || strcaselesscmp(g_current_directive, "IFNDEF") == 0 || strcaselesscmp(g_current_directive, "IFGR") == 0 || strcaselesscmp(g_current_directive, "IFLE") == 0 || strcaselesscmp(g_current_directive, "IFEQ") == 0 ||
-            strcaselesscmp(g_current_directive, "IFNEQ") == 0 || strcaselesscmp(g_current_directive, "IFDEFM") == 0 || strcaselesscmp(g_current_directive, "IFNDEFM") == 0 || strcaselesscmp(g_current_directive, "IF") == 0 || strcaselesscmp(g_current_directive, "IFEXISTS") == 0 ||
-            strcaselesscmp(g_current_directive, "IFGREQ") == 0 || strcaselesscmp(g_current_directive, "IFLEEQ") == 0)
-          r++;
-      }
+    /* don't use substitution in get_next_token() */
+    g_get_next_token_use_substitution = NO;
+
+    while (_get_next_skipped_token() != FAILED) {
+      if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
+        r--;
+      if (strcaselesscmp(g_current_directive, "E") == 0 || _leaves_macro(m, &macros) == YES)
+        break;
+      if (_is_if_directive() == YES)
+        r++;
       if (r == 0) {
         if (_decrease_ifdef() == FAILED)
           return FAILED;
         g_macro_active = m;
+        g_get_next_token_use_substitution = YES;
         return SUCCEEDED;
       }
     }
@@ -12958,7 +12996,7 @@ int parse_if_directive(void) {
 
 int find_next_point(char *name) {
 
-  int depth = 1, m, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
+  int depth = 1, m, macros = 0, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
 
   /* find the next compiling point */
   m = g_macro_active;
@@ -12969,38 +13007,38 @@ int find_next_point(char *name) {
   /* don't use substitution in get_next_token() */
   g_get_next_token_use_substitution = NO;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
-      if (strcaselesscmp(g_current_directive, "ENDIF") == 0) {
-        depth--;
-        if (depth == 0)
-          s_skip_elifs[g_ifdef] = NO;
-        if (_decrease_ifdef() == FAILED)
-          return FAILED;
+  while (_get_next_skipped_token() != FAILED) {
+    if (strcaselesscmp(g_current_directive, "ENDIF") == 0) {
+      depth--;
+      if (depth == 0)
+        s_skip_elifs[g_ifdef] = NO;
+      if (_decrease_ifdef() == FAILED)
+        return FAILED;
+    }
+    if (strcaselesscmp(g_current_directive, "ELSE") == 0 && depth == 1) {
+      depth--;
+      if (s_skip_elifs[g_ifdef] == YES)
+        g_source_index = source_index_old;
+      else {
+        /* no .ELIF can be chosen after this */
+        s_skip_elifs[g_ifdef] = YES;
       }
-      if (strcaselesscmp(g_current_directive, "ELSE") == 0 && depth == 1) {
+    }
+    if (strcaselesscmp(g_current_directive, "ELIF") == 0 && depth == 1) {
+      if (s_skip_elifs[g_ifdef] == NO) {
+        /* go backwards so we'll actually parse .ELIF later */
+        g_source_index = source_index_old;
         depth--;
-        if (s_skip_elifs[g_ifdef] == YES)
-          g_source_index = source_index_old;
-      }
-      if (strcaselesscmp(g_current_directive, "ELIF") == 0 && depth == 1) {
-        if (s_skip_elifs[g_ifdef] == NO) {
-          /* go backwards so we'll actually parse .ELIF later */
-          g_source_index = source_index_old;
-          depth--;
-        }
-      }
-      if (strcaselesscmp(g_current_directive, "E") == 0)
-        break;
-      if (strcaselesscmp(g_current_directive, "IFDEF") == 0 || strcaselesscmp(g_current_directive, "IFNDEF") == 0 || strcaselesscmp(g_current_directive, "IFGR") == 0 || strcaselesscmp(g_current_directive, "IFLE") == 0 ||
-          strcaselesscmp(g_current_directive, "IFEQ") == 0 || strcaselesscmp(g_current_directive, "IFNEQ") == 0 || strcaselesscmp(g_current_directive, "IFDEFM") == 0 || strcaselesscmp(g_current_directive, "IFNDEFM") == 0 ||
-          strcaselesscmp(g_current_directive, "IF") == 0 || strcaselesscmp(g_current_directive, "IFGREQ") == 0 || strcaselesscmp(g_current_directive, "IFLEEQ") == 0 || strcaselesscmp(g_current_directive, "IFEXISTS") == 0) {
-        depth++;
-        if (_increase_ifdef() == FAILED)
-          return FAILED;
-        s_skip_elifs[g_ifdef] = YES;        
       }
     }
+    if (strcaselesscmp(g_current_directive, "E") == 0 || _leaves_macro(m, &macros) == YES)
+      break;
+    if (_is_if_directive() == YES) {
+      depth++;
+      if (_increase_ifdef() == FAILED)
+        return FAILED;
+      s_skip_elifs[g_ifdef] = YES;
+    }
 
     if (depth == 0) {
       g_macro_active = m;
-- 
2.43.0


From 6b5bef88453b025f39075acb3a06ae32d09c7872 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 30/45] fix: .BREAK and .CONTINUE from any place, zero
 repetitions, missing .ENDRs

---
 defines.h |   3 +
 phase_1.c | 208 ++++++++++++++++++++++++++++++++----------------------
 phase_2.c |   7 +-
 3 files changed, 132 insertions(+), 86 deletions(-)

diff --git a/defines.h b/defines.h
index 610a4ff..af1431d 100644
--- a/defines.h
+++ b/defines.h
@@ -843,9 +843,12 @@ struct union_stack {
 struct repeat_runtime {
   int start;
   int start_line;
+  int body;
+  int body_line;
   int counter;
   int repeats;
   int start_ifdef;
+  int start_macro;
   int is_while;
   char index_name[MAX_NAME_LENGTH + 1];
 };
diff --git a/phase_1.c b/phase_1.c
index dae57b8..e8eccf8 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -155,7 +155,9 @@ static int s_bank_defined = 1, s_line_count_status = ON;
 static int s_block_status = 0, s_block_name_id = 0, s_parse_dstruct_result;
 static int s_dstruct_status = OFF;
 static int s_enumid_defined = 0, s_enumid = 0, s_enumid_adder = 1, s_enumid_export = 0;
-static int s_repeat_active = 0, s_saved_structures_max = 0, s_skip_elifs[256];
+int g_repeat_active = 0;
+
+static int s_saved_structures_max = 0, s_skip_elifs[256];
 
 #if defined(MCS6502) || defined(WDC65C02) || defined(CSG65CE02) || defined(W65816) || defined(HUC6280) || defined(MC6800) || defined(MC6801) || defined(MC6809)
 int g_xbit_size = 0, g_accu_size = 8, g_index_size = 8;
@@ -9316,9 +9318,33 @@ int directive_macro(void) {
 }
 
 
+/* like get_next_token(), but after this g_current_directive is empty if the token wasn't a directive */
+static int _get_next_skipped_token(void) {
+
+  g_current_directive[0] = 0;
+
+  return get_next_token();
+}
+
+
+/* did we skip past the end of the active macro? */
+static int _leaves_macro(int macro_active, int *macros) {
+
+  if (strcaselesscmp(g_current_directive, "MACRO") == 0)
+    (*macros)++;
+  else if (strcaselesscmp(g_current_directive, "ENDM") == 0) {
+    (*macros)--;
+    if (macro_active != 0 && *macros < 0)
+      return YES;
+  }
+
+  return NO;
+}
+
+
 static int _find_next_endr(void) {
 
-  int r, m;
+  int r, m, macros = 0;
 
   r = 1;
   m = g_macro_active;
@@ -9326,27 +9352,48 @@ static int _find_next_endr(void) {
   /* disable macro decoding */
   g_macro_active = 0;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
-      if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
-        r--;
-        if (r == 0) {
-          g_macro_active = m;
-          return SUCCEEDED;
-        }
+  /* don't use substitution in get_next_token() */
+  g_get_next_token_use_substitution = NO;
+
+  while (_get_next_skipped_token() != FAILED) {
+    if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
+      r--;
+      if (r == 0) {
+        g_macro_active = m;
+        g_get_next_token_use_substitution = YES;
+        return SUCCEEDED;
       }
-      if (strcaselesscmp(g_current_directive, "E") == 0)
-        break;
-      if (strcaselesscmp(g_current_directive, "REPT") == 0 || strcaselesscmp(g_current_directive, "REPEAT") == 0 ||
-          strcaselesscmp(g_current_directive, "WHILE") == 0)
-        r++;
     }
+    if (strcaselesscmp(g_current_directive, "E") == 0 || _leaves_macro(m, &macros) == YES)
+      break;
+    if (strcaselesscmp(g_current_directive, "REPT") == 0 || strcaselesscmp(g_current_directive, "REPEAT") == 0 ||
+        strcaselesscmp(g_current_directive, "WHILE") == 0)
+      r++;
   }
 
   return FAILED;
 }
 
 
+int directive_endm(void);
+
+
+/* leave the macros that were called inside the active .REPEAT/.WHILE */
+static int _leave_macros_of_repeat(struct repeat_runtime *rr) {
+
+  while (g_macro_active > rr->start_macro) {
+    if (g_macro_stack[g_macro_active - 1].caller != MACRO_CALLER_NORMAL) {
+      print_error(ERROR_DIR, "Cannot leave this macro with .%s.\n", g_current_directive);
+      return FAILED;
+    }
+    if (directive_endm() == FAILED)
+      return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
 int directive_rept_repeat_while(int is_while) {
   
   char c[16], index_name[MAX_NAME_LENGTH + 1];
@@ -9403,6 +9450,11 @@ int directive_rept_repeat_while(int is_while) {
 
     l = g_active_file_info_last->line_current;
 
+    if (index_name[0] != 0) {
+      if (undefine(index_name) == FAILED)
+        return FAILED;
+    }
+
     if (_find_next_endr() == SUCCEEDED)
       return SUCCEEDED;
     
@@ -9412,7 +9464,7 @@ int directive_rept_repeat_while(int is_while) {
     return FAILED;
   }
   
-  if (s_repeat_active == s_repeat_stack_size) {
+  if (g_repeat_active == s_repeat_stack_size) {
     struct repeat_runtime *rr;
 
     s_repeat_stack_size = (s_repeat_stack_size<<1)+2;
@@ -9424,15 +9476,18 @@ int directive_rept_repeat_while(int is_while) {
     g_repeat_stack = rr;
   }
 
-  g_repeat_stack[s_repeat_active].start = start;
-  g_repeat_stack[s_repeat_active].counter = g_parsed_int;
-  g_repeat_stack[s_repeat_active].repeats = 0;
-  g_repeat_stack[s_repeat_active].start_line = line;
-  g_repeat_stack[s_repeat_active].start_ifdef = g_ifdef;
-  g_repeat_stack[s_repeat_active].is_while = is_while;
-  strcpy(g_repeat_stack[s_repeat_active].index_name, index_name);
+  g_repeat_stack[g_repeat_active].start = start;
+  g_repeat_stack[g_repeat_active].counter = g_parsed_int;
+  g_repeat_stack[g_repeat_active].repeats = 0;
+  g_repeat_stack[g_repeat_active].start_line = line;
+  g_repeat_stack[g_repeat_active].body = g_source_index;
+  g_repeat_stack[g_repeat_active].body_line = g_active_file_info_last->line_current;
+  g_repeat_stack[g_repeat_active].start_ifdef = g_ifdef;
+  g_repeat_stack[g_repeat_active].start_macro = g_macro_active;
+  g_repeat_stack[g_repeat_active].is_while = is_while;
+  strcpy(g_repeat_stack[g_repeat_active].index_name, index_name);
 
-  s_repeat_active++;
+  g_repeat_active++;
 
   /* repeat start */
   fprintf(g_file_out_ptr, "j ");
@@ -9447,6 +9502,11 @@ int directive_endm(void) {
   int q;
   
   if (g_macro_active != 0) {
+    if (g_repeat_active > 0 && g_repeat_stack[g_repeat_active - 1].start_macro >= g_macro_active) {
+      print_error(ERROR_DIR, "A .REPEAT/.REPT/.WHILE must end to .ENDR before .ENDM.\n");
+      return FAILED;
+    }
+
     g_macro_active--;
 
     /* macro call end */
@@ -10937,19 +10997,17 @@ int directive_rombanksize_banksize(void) {
 }
 
 
-int directive_break(void) {
+static int _repeat_break(void) {
 
-  int m, line_current = g_active_file_info_last->line_current;
+  int line_current = g_active_file_info_last->line_current;
   struct repeat_runtime *rr;
-  
-  if (s_repeat_active == 0) {
-    print_error(ERROR_DIR, "There is no open .REPT/.REPEAT.\n");
-    return FAILED;
-  }
 
-  rr = &g_repeat_stack[s_repeat_active - 1];
+  rr = &g_repeat_stack[g_repeat_active - 1];
+
+  if (_leave_macros_of_repeat(rr) == FAILED)
+    return FAILED;
 
-  s_repeat_active--;
+  g_repeat_active--;
           
   /* repeat end */
   fprintf(g_file_out_ptr, "J ");
@@ -10960,25 +11018,12 @@ int directive_break(void) {
   }
 
   /* find .ENDR */
-  m = g_macro_active;
-
-  /* disable macro decoding */
-  g_macro_active = 0;
+  g_source_index = rr->start;
+  g_active_file_info_last->line_current = rr->start_line;
 
-  /* don't use substitution in get_next_token() */
-  g_get_next_token_use_substitution = NO;
-
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
-      if (strcaselesscmp(g_current_directive, "E") == 0)
-        break;
-      if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
-        g_macro_active = m;
-        g_get_next_token_use_substitution = YES;
-        g_ifdef = rr->start_ifdef;
-        return SUCCEEDED;  
-      }
-    }
+  if (_find_next_endr() == SUCCEEDED) {
+    g_ifdef = rr->start_ifdef;
+    return SUCCEEDED;
   }
   
   /* return the condition's line number */
@@ -10989,16 +11034,36 @@ int directive_break(void) {
 }
 
 
+int directive_break(void) {
+
+  if (g_repeat_active == 0) {
+    print_error(ERROR_DIR, "There is no open .REPT/.REPEAT.\n");
+    return FAILED;
+  }
+
+  return _repeat_break();
+}
+
+
 int directive_endr_continue(void) {
 
   struct repeat_runtime *rr;
   
-  if (s_repeat_active == 0) {
+  if (g_repeat_active == 0) {
     print_error(ERROR_DIR, "There is no open .REPT/.REPEAT.\n");
     return FAILED;
   }
 
-  rr = &g_repeat_stack[s_repeat_active - 1];
+  rr = &g_repeat_stack[g_repeat_active - 1];
+
+  if (strcaselesscmp(g_current_directive, "CONTINUE") == 0) {
+    if (_leave_macros_of_repeat(rr) == FAILED)
+      return FAILED;
+
+    /* was this the last round? */
+    if (rr->is_while == NO && rr->counter == 1)
+      return _repeat_break();
+  }
 
   if (rr->is_while == YES) {
     int q;
@@ -11022,7 +11087,7 @@ int directive_endr_continue(void) {
     if (g_parsed_int == 0) {
       int l;
 
-      s_repeat_active--;
+      g_repeat_active--;
       l = g_active_file_info_last->line_current;
 
       /* repeat end */
@@ -11040,7 +11105,7 @@ int directive_endr_continue(void) {
   else {
     rr->counter--;
     if (rr->counter == 0) {
-      s_repeat_active--;
+      g_repeat_active--;
           
       /* repeat end */
       fprintf(g_file_out_ptr, "J ");
@@ -11060,13 +11125,10 @@ int directive_endr_continue(void) {
   }
 
   if (rr->is_while == NO) {
-    g_source_index = rr->start;
-    g_active_file_info_last->line_current = rr->start_line;
+    /* return to what follows the count */
+    g_source_index = rr->body;
+    g_active_file_info_last->line_current = rr->body_line;
     g_ifdef = rr->start_ifdef;
-
-    /* roll past the count */
-    while (g_buffer[g_source_index++] != 0xA)
-      ;
   }
   
   return SUCCEEDED;
@@ -12608,15 +12670,6 @@ static int _decrease_ifdef(void) {
 
 /* parses only "if" directives. */
 /* this is separate from parse_directive so that enums and ramsections can reuse this */
-/* like get_next_token(), but after this g_current_directive is empty if the token wasn't a directive */
-static int _get_next_skipped_token(void) {
-
-  g_current_directive[0] = 0;
-
-  return get_next_token();
-}
-
-
 static int _is_if_directive(void) {
 
   static char *names[] = { "IF", "IFDEF", "IFNDEF", "IFGR", "IFGREQ", "IFLE", "IFLEEQ", "IFEQ", "IFNEQ", "IFDEFM", "IFNDEFM", "IFEXISTS", NULL };
@@ -12631,21 +12684,6 @@ static int _is_if_directive(void) {
 }
 
 
-/* did we skip past the end of the active macro? */
-static int _leaves_macro(int macro_active, int *macros) {
-
-  if (strcaselesscmp(g_current_directive, "MACRO") == 0)
-    (*macros)++;
-  else if (strcaselesscmp(g_current_directive, "ENDM") == 0) {
-    (*macros)--;
-    if (macro_active != 0 && *macros < 0)
-      return YES;
-  }
-
-  return NO;
-}
-
-
 int parse_if_directive(void) {
 
   char bak[256];
diff --git a/phase_2.c b/phase_2.c
index 57bba23..38a2c84 100644
--- a/phase_2.c
+++ b/phase_2.c
@@ -73,7 +73,7 @@ extern int g_computesmdchecksum_defined, g_smdheader_defined;
 #endif
 
 extern FILE *g_file_out_ptr;
-extern int g_rambanks, g_rambanks_defined, g_ifdef, g_romheader_baseaddress, g_romheader_baseaddress_defined;
+extern int g_rambanks, g_rambanks_defined, g_ifdef, g_repeat_active, g_romheader_baseaddress, g_romheader_baseaddress_defined;
 extern int g_rombanks_defined, g_rombanks;
 extern int g_output_format, g_romgbc, g_romsgb, g_romdmg, g_max_address;
 extern int g_romtype, g_verbose_level, g_section_status, g_background_defined, g_memorymap_defined;
@@ -155,6 +155,11 @@ int phase_2(void) {
     return FAILED;
   }
 
+  if (g_repeat_active > 0) {
+    print_text(NO, "PHASE_2: %d x .ENDRs are missing.\n", g_repeat_active);
+    return FAILED;
+  }
+
   if (g_section_status == ON) {
     print_text(NO, "PHASE_2: %s The section \"%s\" was not closed.\n", s_include_directives_name, g_sections_last->name);
     return FAILED;
-- 
2.43.0


From b582d07b527d9ca33ae56eb67fe01e8c30e325d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 31/45] fix: macro arguments: swapped names, names not given,
 strings in label lines, .SHIFT without arguments, .EndM

---
 defines.h |   1 +
 phase_1.c | 257 +++++++++++++++++++++++++-----------------------------
 2 files changed, 122 insertions(+), 136 deletions(-)

diff --git a/defines.h b/defines.h
index af1431d..617ec82 100644
--- a/defines.h
+++ b/defines.h
@@ -580,6 +580,7 @@ struct after_section {
 struct macro_argument {
   int type;
   double value;
+  double definition_value;
   int start;
   char has_leading_hashtag;
   char string[MAX_NAME_LENGTH + 1];
diff --git a/phase_1.c b/phase_1.c
index e8eccf8..8b088b7 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -191,7 +191,7 @@ static int s_autopriority = 65535;
 static struct section_def *s_active_ramsection = NULL;
 
 static char s_replacement_memory[1024], s_replacement_backup[1024];
-static int s_replacement_length = 0, s_replacement_index = -1;
+static int s_replacement_length = 0, s_replacement_index = -1, s_replacement_map[1024];
 
 
 #define no_library_files(name)                                          \
@@ -839,28 +839,37 @@ static struct structure* _get_structure(char *name) {
 int directive_define_def_equ(void);
 
 
-static void _forget_macro_replacements(int move_index) {
+static void _forget_macro_replacements(void) {
 
   if (s_replacement_index < 0)
     return;
 
   /* return what we replaced last time */
-  strncpy(&g_buffer[s_replacement_index], s_replacement_backup, s_replacement_length);
+  memcpy(&g_buffer[s_replacement_index], s_replacement_backup, s_replacement_length);
+
+  /* relocate g_source_index */
+  if (g_source_index >= s_replacement_index && g_source_index < s_replacement_index + s_replacement_length)
+    g_source_index = s_replacement_index + s_replacement_map[g_source_index - s_replacement_index];
 
-  if (move_index == SUCCEEDED) {
-    /* relocate g_source_index */
-    g_source_index = s_replacement_index;
-    while (g_buffer[g_source_index++] != 0xA)
-      ;
-  }
-    
   s_replacement_index = -1;
 }
 
 
+/* 'from' is the index of the character, on the original line, that 'c' comes from */
+static void _add_macro_replacement(char c, int *i, int from) {
+
+  if (*i < (int)sizeof(s_replacement_memory)) {
+    s_replacement_memory[*i] = c;
+    s_replacement_map[*i] = from;
+  }
+
+  (*i)++;
+}
+
+
 static int _run_macro_replacements(void) {
 
-  int i = 0, s, replaces = 0;
+  int i = 0, s, replaces = 0, in_string = NO;
   char c;
   
   /* skip empty lines */
@@ -875,62 +884,40 @@ static int _run_macro_replacements(void) {
 
   /* process white space */
   s = g_source_index;
-  c = g_buffer[s++];
 
-  while (c == ' ') {
-    s_replacement_memory[i++] = c;
-    c = g_buffer[s++];
+  while (g_buffer[s] == ' ') {
+    _add_macro_replacement(' ', &i, s - g_source_index);
+    s++;
   }
 
-  if (c == '.') {
+  if (g_buffer[s] == '.') {
     /* directive! abort! */
     return SUCCEEDED;
   }
 
   /* anything to replace on this line? */
-  s--;
-  while (i < (int)sizeof(s_replacement_memory)) {
-    c = g_buffer[s++];
-
-    /* don't replace inside strings */
-    if (c == '"') {
-      s_replacement_memory[i++] = c;
-
-      while (i < (int)sizeof(s_replacement_memory)) {
-        c = g_buffer[s++];
-        if (c == '\\' && g_buffer[s] == '"') {
-          s_replacement_memory[i++] = c;
-          s_replacement_memory[i++] = '"';
-          s++;
-          continue;
-        }
-        else if (c == '"') {
-          s_replacement_memory[i++] = c;
-          break;
-        }
-        else
-          s_replacement_memory[i++] = c;
-      }
-      
-      continue;
+  while (1) {
+    c = g_buffer[s];
+
+    if (c == 0xA) {
+      _add_macro_replacement(c, &i, s - g_source_index);
+      break;
     }
-    
-    if (c == '\\' && g_buffer[s] >= '0' && g_buffer[s] <= '9') {
+    else if (c == '"') {
+      /* don't replace inside strings */
+      in_string = in_string == YES ? NO : YES;
+    }
+    else if (c == '\\' && in_string == YES && (g_buffer[s + 1] == '"' || g_buffer[s + 1] == '\\')) {
+      _add_macro_replacement(c, &i, s - g_source_index);
+      s++;
+    }
+    else if (c == '\\' && in_string == NO && g_buffer[s + 1] >= '0' && g_buffer[s + 1] <= '9') {
       struct macro_argument *ma;
-      int k, x = i, param = 0, add_quotes = NO;
+      int k, param = 0, length, add_quotes = NO;
 
       /* parse param index */
-      s_replacement_memory[x++] = c;
-      for (k = 0; k < 4; k++) {
-        c = g_buffer[s++];
-        s_replacement_memory[x++] = c;
-        if (c >= '0' && c <= '9')
-          param = (param * 10) + (c - '0');
-        else {
-          s--;
-          break;
-        }
-      }
+      for (length = 1; length < 5 && g_buffer[s + length] >= '0' && g_buffer[s + length] <= '9'; length++)
+        param = (param * 10) + (g_buffer[s + length] - '0');
 
       if (param > g_macro_runtime_current->supplied_arguments) {
         print_error(ERROR_NUM, "Referencing argument number %d inside macro \"%s\". The macro has only %d arguments.\n", param, g_macro_runtime_current->macro->name, g_macro_runtime_current->supplied_arguments);
@@ -946,61 +933,44 @@ static int _run_macro_replacements(void) {
       /* only string parameters can be used to replace references */
       if (ma->type == INPUT_NUMBER_STRING) {
         /* add quotes? */
-        if (g_buffer[s] == '.' &&
-            toupper((int)g_buffer[s+1]) == 'L' &&
-            toupper((int)g_buffer[s+2]) == 'E' &&
-            toupper((int)g_buffer[s+3]) == 'N' &&
-            toupper((int)g_buffer[s+4]) == 'G' &&
-            toupper((int)g_buffer[s+5]) == 'T' &&
-            toupper((int)g_buffer[s+6]) == 'H')
+        if (strcaselesscmpn(&g_buffer[s + length], ".LENGTH", 7) == 0)
           add_quotes = YES;
       
         if (add_quotes == YES)
-          s_replacement_memory[i++] = '"';
-
-        strcpy(&s_replacement_memory[i], ma->string);
-        i += (int)strlen(ma->string);
-
+          _add_macro_replacement('"', &i, s + length - g_source_index);
+        for (k = 0; ma->string[k] != 0; k++)
+          _add_macro_replacement(ma->string[k], &i, s + length - g_source_index);
         if (add_quotes == YES)
-          s_replacement_memory[i++] = '"';
+          _add_macro_replacement('"', &i, s + length - g_source_index);
 
+        s += length;
         replaces++;
-      }
-      else {
-        /* no replacement -> continue as usual */
-        i = x;
-        s++;
+
+        continue;
       }
     }
-    else if (c == 0xA) {
-      s_replacement_memory[i++] = 0xA;
-      s_replacement_memory[i] = 0;
-        
-      if (replaces > 0) {
-        /* backup and overwrite! */
-        i++;
 
-        strncpy(s_replacement_backup, &g_buffer[g_source_index], i);
-        if (g_source_index + i < g_source_file_size)
-          strcpy(&g_buffer[g_source_index], s_replacement_memory);
-        else {
-          print_error(ERROR_NUM, "Expected buffer overrun in _run_macro_replacements()! Please submit a bug report!\n");
-          return FAILED;
-        }
-        
-        s_replacement_length = i;
-        s_replacement_index = g_source_index;
-      }
+    _add_macro_replacement(g_buffer[s], &i, s - g_source_index);
+    s++;
+  }
 
-      break;
+  if (replaces > 0) {
+    if (i >= (int)sizeof(s_replacement_memory)) {
+      print_error(ERROR_LOG, "Out of s_replacement_memory buffer size (buffer %d bytes, got %d bytes) in phase_1.c!\n", (int)sizeof(s_replacement_memory), i);
+      return FAILED;
     }
-    else
-      s_replacement_memory[i++] = c;
-  }
 
-  if (i >= (int)sizeof(s_replacement_memory) - 1) {
-    print_error(ERROR_LOG, "Out of s_replacement_memory buffer size (buffer %d bytes, got %d bytes) in phase_1.c!\n", (int)sizeof(s_replacement_memory), i);
-    return FAILED;
+    /* backup and overwrite! */
+    if (g_source_index + i >= g_source_file_size) {
+      print_error(ERROR_NUM, "Expected buffer overrun in _run_macro_replacements()! Please submit a bug report!\n");
+      return FAILED;
+    }
+
+    memcpy(s_replacement_backup, &g_buffer[g_source_index], i);
+    memcpy(&g_buffer[g_source_index], s_replacement_memory, i);
+        
+    s_replacement_length = i;
+    s_replacement_index = g_source_index;
   }
 
   return SUCCEEDED;
@@ -1079,8 +1049,10 @@ int phase_1(void) {
     }
 
     /* skip loose '\'s */
-    if (strcmp("\\", g_tmp) == 0)
+    if (strcmp("\\", g_tmp) == 0) {
+      _forget_macro_replacements();
       continue;
+    }
 
     q = evaluate_token();
 
@@ -1093,7 +1065,7 @@ int phase_1(void) {
     g_input_number_expects_dot = NO;
 #endif
 
-    _forget_macro_replacements(q);
+    _forget_macro_replacements();
     
     if (q == SUCCEEDED)
       continue;
@@ -1260,6 +1232,7 @@ int phase_1(void) {
 
         mrt->argument_data[p]->start = o;
         mrt->argument_data[p]->type = q;
+        mrt->argument_data[p]->definition_value = g_parsed_double;
         mrt->argument_data[p]->has_leading_hashtag = g_input_has_leading_hashtag;
 
         if (q == INPUT_NUMBER_ADDRESS_LABEL)
@@ -1275,49 +1248,56 @@ int phase_1(void) {
         else
           return FAILED;
 
-        /* do we have a name for this argument? */
-        if (p < m->nargument_names) {
-          char argument_name[MAX_NAME_LENGTH + 1];
-          struct definition *definition;
+      }
 
-          if (m->namespace[0] == 0)
-            strcpy(argument_name, m->argument_names[p]);
-          else
-            snprintf(argument_name, sizeof(argument_name), "%s.%s", m->namespace, m->argument_names[p]);
-
-          /* does the definition exist already? */
-          hashmap_get(g_defines_map, argument_name, (void*)&definition);
-          if (definition != NULL) {
-            /* yes, store it! */
-            struct definition_storage *storage = calloc(sizeof(struct definition_storage), 1);
-            if (storage == NULL) {
-              print_error(ERROR_ERR, "Out of memory error while trying to store a definition.\n");
-              return FAILED;
-            }
+      mrt->supplied_arguments = p;
 
-            storage->definition = definition;
-            storage->next = mrt->definition_storage;
-            mrt->definition_storage = storage;
+      /* define the named arguments. this is done after all the arguments have been read, as their values can
+         be given using the definitions they hide */
+      for (p = 0; p < m->nargument_names; p++) {
+        char argument_name[MAX_NAME_LENGTH + 1];
+        struct definition *definition;
+        struct macro_argument *ma;
 
-            /* temporarily remove the definition, because a new one is going to replace it */
-            hashmap_remove(g_defines_map, argument_name);
+        if (m->namespace[0] == 0)
+          strcpy(argument_name, m->argument_names[p]);
+        else
+          snprintf(argument_name, sizeof(argument_name), "%s.%s", m->namespace, m->argument_names[p]);
+
+        /* does the definition exist already? */
+        hashmap_get(g_defines_map, argument_name, (void*)&definition);
+        if (definition != NULL) {
+          /* yes, store it! */
+          struct definition_storage *storage = calloc(sizeof(struct definition_storage), 1);
+          if (storage == NULL) {
+            print_error(ERROR_ERR, "Out of memory error while trying to store a definition.\n");
+            return FAILED;
           }
 
-          if (q == INPUT_NUMBER_ADDRESS_LABEL)
-            redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(g_label));
-          else if (q == INPUT_NUMBER_STRING)
-            redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_STRING, (int)strlen(g_label));
-          else if (q == INPUT_NUMBER_STACK)
-            redefine(argument_name, (double)g_latest_stack, NULL, DEFINITION_TYPE_STACK, 0);
-          else if (q == SUCCEEDED)
-            redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0);
-          else if (q == INPUT_NUMBER_FLOAT)
-            redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0);
+          storage->definition = definition;
+          storage->next = mrt->definition_storage;
+          mrt->definition_storage = storage;
+
+          /* temporarily remove the definition, because a new one is going to replace it */
+          hashmap_remove(g_defines_map, argument_name);
         }
+
+        /* was the argument given? */
+        if (p >= mrt->supplied_arguments)
+          continue;
+
+        ma = mrt->argument_data[p];
+        if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
+          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
+        else if (ma->type == INPUT_NUMBER_STRING)
+          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+        else if (ma->type == INPUT_NUMBER_STACK)
+          redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
+        else
+          redefine(argument_name, ma->definition_value, NULL, DEFINITION_TYPE_VALUE, 0);
       }
 
-      mrt->supplied_arguments = p;
-      if (_macro_start(m, mrt, MACRO_CALLER_NORMAL, p) == FAILED)
+      if (_macro_start(m, mrt, MACRO_CALLER_NORMAL, mrt->supplied_arguments) == FAILED)
         return FAILED;
 
       continue;
@@ -6445,6 +6425,11 @@ int directive_shift(void) {
   rt = &g_macro_stack[g_macro_active - 1];
   st = rt->macro;
 
+  if (rt->supplied_arguments <= 0) {
+    print_error(ERROR_DIR, ".SHIFT: There are no arguments left to shift.\n");
+    return FAILED;
+  }
+
   if (st->nargument_names <= rt->supplied_arguments)
     o = st->nargument_names;
   else
@@ -9308,7 +9293,7 @@ int directive_macro(void) {
       print_error(ERROR_DIR, "MACRO \"%s\" wasn't terminated with .ENDM.\n", m->name);
       return FAILED;
     }
-    else if ((strncmp(&g_buffer[g_source_index], ".ENDM", 5) == 0 || strncmp(&g_buffer[g_source_index], ".endm", 5) == 0) && (g_buffer[g_source_index + 5] == 0x0A || g_buffer[g_source_index + 5] == ' ')) {
+    else if (strcaselesscmpn(&g_buffer[g_source_index], ".ENDM", 5) == 0 && (g_buffer[g_source_index + 5] == 0x0A || g_buffer[g_source_index + 5] == ' ')) {
       g_source_index += 5;
       break;
     }
-- 
2.43.0


From 971adeb0304c05ca3aef622ad41552f7f8d5cfc8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 32/45] fix: constant functions, .SHIFT of computed arguments,
 calculations given to macros used many times

---
 parse.c   | 61 ++++++++++++++++++++++++++++----------------------
 phase_1.c | 66 +++++++++++++++++++++++++++++++++----------------------
 2 files changed, 75 insertions(+), 52 deletions(-)

diff --git a/parse.c b/parse.c
index dca7740..dd3337f 100644
--- a/parse.c
+++ b/parse.c
@@ -916,8 +916,12 @@ int input_number(void) {
         strcpy(g_label, ma->string);
         g_string_size = (int)strlen(ma->string);
       }
-      else if (k == INPUT_NUMBER_STACK)
-        g_latest_stack = (int)ma->value;
+      else if (k == INPUT_NUMBER_STACK) {
+        /* wrap the stack calculation inside a new one as a stack calculation contains one write, but
+           the argument can be used many times */
+        if (stack_create_stack_stack((int)ma->value) == FAILED)
+          return FAILED;
+      }
       else if (k == SUCCEEDED) {
         g_parsed_int = (int)ma->value;
         g_parsed_double = ma->value;
@@ -2449,9 +2453,9 @@ static int _replace_labels_inside_stack_calculation(struct stack_item *stack_ite
 
 int parse_function(char *in, char *name, int *found_function, int *parsed_chars) {
 
-  int res, source_index_original = g_source_index, source_index_backup, i, j, input_float_mode, can_remember_converted_stack_items;
+  int res, source_index_original = g_source_index, source_index_backup, i, j, input_float_mode, can_remember_converted_stack_items, stacksize = 0;
   struct function *fun = g_functions_first;
-  struct stack_item *si;
+  struct stack_item *si = NULL;
   char c1 = name[0];
 
   /* NOTE! we assume that 'in' is actually '&g_buffer[xyz]', so
@@ -2477,29 +2481,26 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
   /* we found the function! let's parse the arguments */
   *found_function = YES;
 
-  /* is the function just a constant? */
-  if (fun->type == SUCCEEDED) {
-    g_parsed_int = (int)fun->value;
-    g_parsed_double = fun->value;
+  /* is the function just a constant? in that case there is no stack calculation to clone */
+  if (fun->stack != NULL) {
+    stacksize = fun->stack->stacksize;
 
-    return SUCCEEDED;
-  }
-
-  /* clone the stack calculation */
-  if (_clone_stack_calculation(&si, fun->stack->stack_items, fun->stack->stacksize, name) == FAILED)
-    return FAILED;
-
-  /* clone all contained stack calculations */
-  if (_clone_contained_stack_calculations(si, fun->stack->stacksize, name) == FAILED) {
-    free(si);
-    return FAILED;
-  }
+    /* clone the stack calculation */
+    if (_clone_stack_calculation(&si, fun->stack->stack_items, stacksize, name) == FAILED)
+      return FAILED;
 
-  if (g_parsing_function_body == NO) {
-    if (_reset_has_been_replaced_status(si, fun->stack->stacksize) == FAILED) {
+    /* clone all contained stack calculations */
+    if (_clone_contained_stack_calculations(si, stacksize, name) == FAILED) {
       free(si);
       return FAILED;
     }
+
+    if (g_parsing_function_body == NO) {
+      if (_reset_has_been_replaced_status(si, stacksize) == FAILED) {
+        free(si);
+        return FAILED;
+      }
+    }
   }
 
   for (i = 0; i < fun->nargument_names; i++) {
@@ -2547,7 +2548,7 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
     }
     
     /* substitute the result into the stack calculation */
-    for (j = 0; j < fun->stack->stacksize; j++) {
+    for (j = 0; j < stacksize; j++) {
       struct stack_item *sij = &si[j];
       
       if (sij->type == STACK_ITEM_TYPE_STACK) {
@@ -2600,10 +2601,18 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
   /* return g_source_index */
   g_source_index = source_index_original;
 
+  /* a constant? */
+  if (fun->stack == NULL) {
+    g_parsed_int = (int)fun->value;
+    g_parsed_double = fun->value;
+
+    return SUCCEEDED;
+  }
+
   /* try to parse the stack calculation */
   can_remember_converted_stack_items = g_can_remember_converted_stack_items;
   g_can_remember_converted_stack_items = NO;
-  if (g_parsing_function_body == NO && resolve_stack(si, fun->stack->stacksize) == SUCCEEDED) {
+  if (g_parsing_function_body == NO && resolve_stack(si, stacksize) == SUCCEEDED) {
     struct stack s;
     double dou;
 
@@ -2614,7 +2623,7 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
 
     g_can_remember_converted_stack_items = can_remember_converted_stack_items;
     
-    if (compute_stack(&s, fun->stack->stacksize, &dou) == FAILED)
+    if (compute_stack(&s, stacksize, &dou) == FAILED)
       return FAILED;
 
     free(si);
@@ -2628,7 +2637,7 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
   g_can_remember_converted_stack_items = can_remember_converted_stack_items;
   
   /* save the stack calculation */
-  _save_stack_calculation(si, fun->stack->stacksize, -1, -1);
+  _save_stack_calculation(si, stacksize, -1, -1);
 
   return INPUT_NUMBER_STACK;
 }
diff --git a/phase_1.c b/phase_1.c
index 8b088b7..fcd8d91 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1010,6 +1010,30 @@ int process_label_inside_macro(int add_namespace, char *buffer, int sizeof_buffe
 }
 
 
+static void _get_macro_argument_name(char *name, int size, struct macro_static *m, int argument) {
+
+  if (m->namespace[0] == 0)
+    snprintf(name, size, "%s", m->argument_names[argument]);
+  else
+    snprintf(name, size, "%s.%s", m->namespace, m->argument_names[argument]);
+}
+
+
+static int _define_macro_argument(char *name, struct macro_argument *ma) {
+
+  if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
+    return redefine(name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
+  else if (ma->type == INPUT_NUMBER_STRING)
+    return redefine(name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+  else if (ma->type == INPUT_NUMBER_STACK)
+    return redefine(name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
+  else if (ma->type == SUCCEEDED)
+    return redefine(name, ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
+
+  return redefine(name, ma->definition_value, NULL, DEFINITION_TYPE_VALUE, 0);
+}
+
+
 int phase_1(void) {
 
   struct macro_runtime *mrt;
@@ -1257,12 +1281,8 @@ int phase_1(void) {
       for (p = 0; p < m->nargument_names; p++) {
         char argument_name[MAX_NAME_LENGTH + 1];
         struct definition *definition;
-        struct macro_argument *ma;
 
-        if (m->namespace[0] == 0)
-          strcpy(argument_name, m->argument_names[p]);
-        else
-          snprintf(argument_name, sizeof(argument_name), "%s.%s", m->namespace, m->argument_names[p]);
+        _get_macro_argument_name(argument_name, sizeof(argument_name), m, p);
 
         /* does the definition exist already? */
         hashmap_get(g_defines_map, argument_name, (void*)&definition);
@@ -1286,15 +1306,8 @@ int phase_1(void) {
         if (p >= mrt->supplied_arguments)
           continue;
 
-        ma = mrt->argument_data[p];
-        if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
-          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
-        else if (ma->type == INPUT_NUMBER_STRING)
-          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
-        else if (ma->type == INPUT_NUMBER_STACK)
-          redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
-        else
-          redefine(argument_name, ma->definition_value, NULL, DEFINITION_TYPE_VALUE, 0);
+        if (_define_macro_argument(argument_name, mrt->argument_data[p]) == FAILED)
+          return FAILED;
       }
 
       if (_macro_start(m, mrt, MACRO_CALLER_NORMAL, mrt->supplied_arguments) == FAILED)
@@ -6412,7 +6425,7 @@ int directive_block(void) {
 
 int directive_shift(void) {
 
-  struct macro_argument *ma;
+  char argument_name[MAX_NAME_LENGTH + 1];
   struct macro_runtime *rt;
   struct macro_static *st;
   int q, o;
@@ -6436,8 +6449,10 @@ int directive_shift(void) {
     o = rt->supplied_arguments;
 
   /* free the argument definitions */
-  for (q = 0; q < o; q++)
-    undefine(st->argument_names[q]);
+  for (q = 0; q < o; q++) {
+    _get_macro_argument_name(argument_name, sizeof(argument_name), st, q);
+    undefine(argument_name);
+  }
 
   /* free the first argument data */
   free(rt->argument_data[0]);
@@ -6457,15 +6472,9 @@ int directive_shift(void) {
 
   /* redo the definitions if any */
   for (q = 0; q < o; q++) {
-    ma = rt->argument_data[q];
-    if (ma->type == SUCCEEDED)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
-    else if (ma->type == INPUT_NUMBER_STACK)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_STACK, 0);
-    else if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
-    else if (ma->type == INPUT_NUMBER_STRING)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+    _get_macro_argument_name(argument_name, sizeof(argument_name), st, q);
+    if (_define_macro_argument(argument_name, rt->argument_data[q]) == FAILED)
+      return FAILED;
   }
 
   /* redefine NARGS */
@@ -8068,6 +8077,11 @@ int directive_function(void) {
     else if (res == FAILED)
       return FAILED;
 
+    if (f->nargument_names >= (int)(sizeof(f->argument_names)/sizeof(f->argument_names[0]))) {
+      print_error(ERROR_DIR, "Function \"%s\" has too many arguments.\n", name);
+      return FAILED;
+    }
+
     f->argument_names[f->nargument_names] = calloc((int)strlen(g_label) + 1, 1);
     if (f->argument_names[f->nargument_names] == NULL) {
       print_error(ERROR_DIR, "Out of memory while allocating a new function.\n");
-- 
2.43.0


From c0d912a6e7033d0575ea54baa3a08a41ceab072e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 33/45] fix: definitions with too much data overflowed a
 buffer, computations in lists of values were kept as wrong definitions

---
 phase_1.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index fcd8d91..d71c2ad 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1402,6 +1402,14 @@ int add_a_new_definition(char *name, double value, char *string, int type, int s
   if (_is_a_reserved_label(name) == YES)
     return FAILED;
   
+  if (size > MAX_NAME_LENGTH) {
+    if (g_commandline_parsing == OFF)
+      print_error(ERROR_DIR, "The data of definition \"%s\" is too long (max %d bytes).\n", name, MAX_NAME_LENGTH);
+    else
+      print_text(NO, "ADD_A_NEW_DEFINITION: The data of definition \"%s\" is too long (max %d bytes).\n", name, MAX_NAME_LENGTH);
+    return FAILED;
+  }
+
   hashmap_get(g_defines_map, name, (void*)&d);
   if (d != NULL) {
     if (g_commandline_parsing == OFF)
@@ -8136,7 +8144,7 @@ int directive_function(void) {
 
 int directive_define_def_equ(void) {
   
-  char k[256], label[MAX_NAME_LENGTH+1];
+  char k[MAX_NAME_LENGTH + 1], label[MAX_NAME_LENGTH+1];
   int j, export, q, size;
   struct definition *d;
   double dou;
@@ -8444,7 +8452,7 @@ int directive_input(void) {
 
 int directive_redefine_redef(void) {
   
-  char k[256], label[MAX_NAME_LENGTH+1];
+  char k[MAX_NAME_LENGTH + 1], label[MAX_NAME_LENGTH+1];
   int j, export, q, size;
   double dou;
 
@@ -13142,7 +13150,7 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
     x = input_number();
     if (x != INPUT_NUMBER_EOL) {
       print_error(ERROR_DIR, "A computation cannot be output as a string.\n");
-      return SUCCEEDED;
+      return FAILED;
     }
     next_line();
     
@@ -13155,6 +13163,10 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
       if (x == SUCCEEDED)
         *b = g_parsed_int;
       else if (x == INPUT_NUMBER_STRING) {
+        if (g_string_size > MAX_NAME_LENGTH) {
+          print_error(ERROR_DIR, "The definition's data is too long (max %d bytes).\n", MAX_NAME_LENGTH);
+          return FAILED;
+        }
         memcpy(c, g_label, g_string_size);
         s = g_string_size;
       }
@@ -13198,6 +13210,11 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
       x = SUCCEEDED;
     }
 
+    if (s + (x == INPUT_NUMBER_STRING ? g_string_size : 2) > MAX_NAME_LENGTH) {
+      print_error(ERROR_DIR, "The definition's data is too long (max %d bytes).\n", MAX_NAME_LENGTH);
+      return FAILED;
+    }
+
     if (x == INPUT_NUMBER_STRING) {
       memcpy(&c[s], g_label, g_string_size);
       s += g_string_size;
@@ -13215,6 +13232,10 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
         s++;
       }
     }
+    else if (x == INPUT_NUMBER_STACK) {
+      print_error(ERROR_DIR, "A computation cannot be output as a string.\n");
+      return FAILED;
+    }
     else
       return x;
 
-- 
2.43.0


From 6a6d266786d267a28de50b3a38ba0bd3ddf3aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 34/45] fix: missing .ENDRs at the end of the source are warned
 about as before

---
 phase_2.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/phase_2.c b/phase_2.c
index 38a2c84..7ec9455 100644
--- a/phase_2.c
+++ b/phase_2.c
@@ -155,10 +155,8 @@ int phase_2(void) {
     return FAILED;
   }
 
-  if (g_repeat_active > 0) {
-    print_text(NO, "PHASE_2: %d x .ENDRs are missing.\n", g_repeat_active);
-    return FAILED;
-  }
+  if (g_repeat_active > 0)
+    print_text(NO, "PHASE_2: WARNING: %d x .ENDRs are missing.\n", g_repeat_active);
 
   if (g_section_status == ON) {
     print_text(NO, "PHASE_2: %s The section \"%s\" was not closed.\n", s_include_directives_name, g_sections_last->name);
-- 
2.43.0


From 9ad24fefdcf0a5b5790644fbb2459d47539a1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 35/45] fix: child labels of local labels, and parents and
 kinds of labels in ISOLATED macros

---
 defines.h |  6 ++++++
 phase_3.c | 18 ++++++++--------
 stack.c   | 63 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 3 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/defines.h b/defines.h
index 617ec82..48449fa 100644
--- a/defines.h
+++ b/defines.h
@@ -900,6 +900,7 @@ struct stack_item_priority_item {
 
 struct data_stream_item {
   char label[MAX_NAME_LENGTH + 1];
+  int  is_local;
   int  section_id;
   int  address;
   int  bank;
@@ -908,6 +909,11 @@ struct data_stream_item {
   struct data_stream_item *next;
 };
 
+struct data_stream_parents {
+  struct data_stream_item *labels[10];
+  struct data_stream_parents *next;
+};
+
 struct label_context {
   struct label_def *parent_labels[10];
   struct macro_static *isolated_macro;
diff --git a/phase_3.c b/phase_3.c
index 3e472ae..4a49268 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -1450,18 +1450,18 @@ int process_macro_out(int id, char *name, int file_name_id, int line_number) {
 int add_context_to_anonymous_label(char *label, int label_size, struct label_context *label_context, int file_name_id, int line_number) {
 
   char new_label[MAX_NAME_LENGTH + 1];
-  int can_do = NO;
+  int is_anonymous = is_label_anonymous(label);
 
-  if (is_label_anonymous(label) == YES) {
-    if (label_context->isolated_macro->isolated_unnamed == YES)
-      can_do = YES;
-  }
-  else if (label[0] == '_') {
-    if (label_context->isolated_macro->isolated_local == YES)
-      can_do = YES;
+  /* find the innermost macro that isolates labels like this one */
+  while (label_context != NULL && label_context->isolated_macro != NULL) {
+    if (is_anonymous == YES && label_context->isolated_macro->isolated_unnamed == YES)
+      break;
+    if (is_anonymous == NO && label[0] == '_' && label_context->isolated_macro->isolated_local == YES)
+      break;
+    label_context = label_context->prev;
   }
 
-  if (can_do == YES) {
+  if (label_context != NULL && label_context->isolated_macro != NULL) {
     int full_length = (int)strlen(label) + 1 + (int)strlen(label_context->isolated_macro->name) + 1 + (int)strlen(g_asm_name) + 10;
 
     if (full_length < label_size - 1 && full_length < (int)(sizeof(new_label) - 1)) {
diff --git a/stack.c b/stack.c
index 206180c..e5c930f 100644
--- a/stack.c
+++ b/stack.c
@@ -21,6 +21,7 @@
 #include "main.h"
 
 
+extern struct macro_static *g_macros_first;
 extern int g_input_number_error_msg, g_bankheader_status, g_input_float_mode, g_global_label_hint, g_is_data_stream_parser_enabled;
 extern int g_source_index, g_source_file_size, g_parsed_int, g_macro_active, g_string_size, g_section_status, g_parse_floats;
 extern char *g_buffer, *g_tmp, g_expanded_macro_string[256], g_label[MAX_NAME_LENGTH + 1], g_latest_label[MAX_NAME_LENGTH + 1];
@@ -1531,6 +1532,7 @@ static int _parse_function_math3_base(char **in, struct stack_item *si, int *q,
 
 
 static struct data_stream_item *s_dsp_parent_labels[10];
+static struct data_stream_parents *s_dsp_saved_parents = NULL;
 static struct map_t *s_dsp_labels_map = NULL;
 
 
@@ -1551,12 +1553,10 @@ static struct data_stream_item *_data_stream_parser_find_label(char *label, int
     while (n < 10 && label[n] == '@')
       n++;
     n--;
+    while (n >= 0 && s_dsp_parent_labels[n] == NULL)
+      n--;
 
     if (n >= 0) {
-      if (s_dsp_parent_labels[n] == NULL) {
-        print_text(NO, "_DATA_STREAM_PARSER_FIND_LABEL: Parent of label \"%s\" is missing! Please submit a bug report!\n", label);
-        return NULL;
-      }
       if (mangle_label(mangled_label, s_dsp_parent_labels[n]->label, n, MAX_NAME_LENGTH, file_name_id, line_number) == FAILED)
         return NULL;
     }
@@ -4901,6 +4901,12 @@ int data_stream_parser_free(void) {
     s_data_stream_items_first = next;
   }
 
+  while (s_dsp_saved_parents != NULL) {
+    struct data_stream_parents *next = s_dsp_saved_parents->next;
+    free(s_dsp_saved_parents);
+    s_dsp_saved_parents = next;
+  }
+
   s_data_stream_items_first = NULL;
   s_data_stream_items_last = NULL;
 
@@ -4912,6 +4918,20 @@ int data_stream_parser_free(void) {
    integer was there so we'll in such cases read the value into a temp variable that's not used, which seems
    to solve the issue. that is only needed here as in every other cases we read from the internal file stream
    writing to it has completed and it ends to an 'E' thus all skips (before it) work */
+static int _is_isolated_macro(int id) {
+
+  struct macro_static *macro = g_macros_first;
+
+  while (macro != NULL) {
+    if (macro->id == id)
+      return (macro->isolated_local == YES || macro->isolated_unnamed == YES) ? YES : NO;
+    macro = macro->next;
+  }
+
+  return NO;
+}
+
+
 int data_stream_parser_parse(void) {
 
   char c, temp_s[MAX_NAME_LENGTH + 1];
@@ -4963,6 +4983,20 @@ int data_stream_parser_parse(void) {
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
+
+      if (_is_isolated_macro(temp_1) == YES) {
+        /* isolated macros have parent labels of their own */
+        struct data_stream_parents *parents = calloc(sizeof(struct data_stream_parents), 1);
+
+        if (parents == NULL) {
+          print_error(ERROR_ERR, "Out of memory error while allocating data_stream_parents.\n");
+          return FAILED;
+        }
+        memcpy(parents->labels, s_dsp_parent_labels, sizeof(s_dsp_parent_labels));
+        memset(s_dsp_parent_labels, 0, sizeof(s_dsp_parent_labels));
+        parents->next = s_dsp_saved_parents;
+        s_dsp_saved_parents = parents;
+      }
       continue;
     case 'I':
       err = fscanf(g_file_out_ptr, "%d ", &temp_1);
@@ -4971,6 +5005,14 @@ int data_stream_parser_parse(void) {
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
+
+      if (_is_isolated_macro(temp_1) == YES && s_dsp_saved_parents != NULL) {
+        struct data_stream_parents *parents = s_dsp_saved_parents;
+
+        memcpy(s_dsp_parent_labels, parents->labels, sizeof(s_dsp_parent_labels));
+        s_dsp_saved_parents = parents->next;
+        free(parents);
+      }
       continue;
 
     case 'P':
@@ -5284,8 +5326,8 @@ int data_stream_parser_parse(void) {
         if (err < 1)
           return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
         
-        if (is_label_anonymous(dSI->label) == YES || dSI->label[0] == '_') {
-          /* we skip anonymous and local labels here, too much trouble */
+        if (is_label_anonymous(dSI->label) == YES) {
+          /* we skip anonymous labels here, too much trouble */
           free(dSI);
         }
         else {
@@ -5298,6 +5340,8 @@ int data_stream_parser_parse(void) {
           while (m < 10)
             s_dsp_parent_labels[m++] = NULL;
 
+          dSI->is_local = dSI->label[0] == '_' ? YES : NO;
+
           if (n < 10)
             s_dsp_parent_labels[n] = dSI;
           n--;
@@ -5305,6 +5349,8 @@ int data_stream_parser_parse(void) {
             n--;
 
           if (n >= 0) {
+            dSI->is_local = s_dsp_parent_labels[n]->is_local;
+
             /* mangle the label so that we'll save only full forms of labels */
             if (mangle_label(dSI->label, s_dsp_parent_labels[n]->label, n, MAX_NAME_LENGTH, s_dsp_file_name_id, s_dsp_line_number) == FAILED)
               return FAILED;
@@ -5326,8 +5372,9 @@ int data_stream_parser_parse(void) {
           dSI->slot = s_dsp_slot;
           dSI->base = s_dsp_base;
 
-          /* store the entry in a hashmap for quick discovery */
-          if (hashmap_put(s_dsp_labels_map, dSI->label, dSI) == MAP_OMEM) {
+          /* store the entry in a hashmap for quick discovery, but skip local labels and their children, too much
+             trouble. though they are still parents of the child labels that follow them */
+          if (dSI->is_local == NO && hashmap_put(s_dsp_labels_map, dSI->label, dSI) == MAP_OMEM) {
             print_text(NO, "data_stream_parser_parse(): Out of memory error while trying to insert label \"%s\" into a hashmap.\n", dSI->label);
             return FAILED;
           }
-- 
2.43.0


From de344a6212c6f109504bf70794692eb4f7aa3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 36/45] fix: unterminated block comments are refused, /*/ does
 not end a comment, comments between elements are white space

---
 include.c | 111 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 34 deletions(-)

diff --git a/include.c b/include.c
index 4acb0bd..1af9669 100644
--- a/include.c
+++ b/include.c
@@ -287,7 +287,8 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
     memcpy(g_buffer, change_file_buffer, change_file_buffer_size);
     
     /* preprocess */
-    preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_buffer[change_file_buffer_size], &g_source_file_size, g_full_name);
+    if (preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_buffer[change_file_buffer_size], &g_source_file_size, g_full_name) == FAILED)
+      return FAILED;
     g_source_file_size += change_file_buffer_size;
 
     g_buffer[g_source_file_size++] = 0xA;
@@ -329,7 +330,10 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
       
   /* preprocess */
   size = 0;
-  preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_tmp_a[change_file_buffer_size], &size, g_full_name);
+  if (preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_tmp_a[change_file_buffer_size], &size, g_full_name) == FAILED) {
+    free(tmp_b);
+    return FAILED;
+  }
   size += change_file_buffer_size;
 
   g_tmp_a[size++] = 0xA;
@@ -722,6 +726,44 @@ int print_file_names(char *target_file_name) {
 /* the mystery preprocessor - touch it and prepare for trouble ;) the preprocessor
    removes as much white space as possible from the source file. this is to make
    the parsing of the file, that follows, simpler. */
+/* returns the first character after the block comment, or NULL if the comment isn't terminated */
+static char *_find_block_comment_end(char *input, char *input_end, int *newlines) {
+
+  *newlines = 0;
+
+  for (input += 2; input + 1 < input_end; input++) {
+    if (*input == '*' && *(input + 1) == '/')
+      return input + 2;
+    if (*input == 0x0A)
+      (*newlines)++;
+  }
+
+  return NULL;
+}
+
+
+/* block comments that don't contain new lines are white space */
+static char *_skip_white_space(char *input, char *input_end) {
+
+  while (input < input_end) {
+    if (*input == ' ' || *input == 0x09)
+      input++;
+    else if (*input == '/' && input + 1 < input_end && *(input + 1) == '*') {
+      int newlines;
+      char *comment_end = _find_block_comment_end(input, input_end, &newlines);
+
+      if (comment_end == NULL || newlines > 0)
+        break;
+      input = comment_end;
+    }
+    else
+      break;
+  }
+
+  return input;
+}
+
+
 int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_size, char *file_name) {
 
   /* this is set to 1 when the parser finds a non white space symbol on the line it's parsing */
@@ -771,35 +813,39 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
       }
       break;
     case '/':
-      if (*(input + 1) == '*') {
+      if (input + 1 < input_end && *(input + 1) == '*') {
         /* remove an ANSI C -style block comment */
-        got_chars_on_line = 0;
-        input += 2;
-        while (got_chars_on_line == 0) {
-          for ( ; input < input_end && *input != '/' && *input != 0x0A; input++)
+        int newlines = 0;
+        char *comment_end = _find_block_comment_end(input, input_end, &newlines);
+
+        if (comment_end == NULL) {
+          print_error(ERROR_INC, "Comment wasn't terminated properly in file \"%s\".\n", file_name);
+          return FAILED;
+        }
+
+        if (newlines > 0) {
+          /* the comment ends the line it starts from */
+          for ( ; output > out_buffer && *(output - 1) == ' '; output--)
             ;
-          if (input >= input_end) {
-            print_error(ERROR_INC, "Comment wasn't terminated properly in file \"%s\".\n", file_name);
-            return FAILED;
-          }
-          if (*input == 0x0A) {
+          for ( ; newlines > 0; newlines--, output++)
             *output = 0x0A;
-            output++;
-          }
-          if (*input == '/' && *(input - 1) == '*') {
-            got_chars_on_line = 1;
-          }
-          input++;
+          input = comment_end;
+          got_chars_on_line = 0;
+          z = 0;
+#if defined(W65816) || defined(SPC700)
+          square_bracket_open = 0;
+#endif
+        }
+        else if (got_chars_on_line == 0) {
+          /* nothing is left in the beginning of a line */
+          input = comment_end;
+        }
+        else {
+          /* elsewhere the comment turns into white space */
+          memset(input, ' ', comment_end - input);
         }
-        output--;
-        for ( ; output > out_buffer && *output == ' '; output--)
-          ;
-        if (output < out_buffer)
-          output = out_buffer;
-        else if (*output != ' ')
-          output++;
       }
-      else if (*(input + 1) == '/') {
+      else if (input + 1 < input_end && *(input + 1) == '/') {
         /* C++ style comment -> clear a commented line */
         input += 2;
         for ( ; input < input_end && *input != 0x0A && *input != 0x0D; input++)
@@ -832,15 +878,14 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
       input++;
       *output = ' ';
       output++;
-      for ( ; input < input_end && (*input == ' ' || *input == 0x09); input++)
-        ;
-      if (got_chars_on_line == 0 && (*input == '-' || *input == '+')) {
+      input = _skip_white_space(input, input_end);
+      if (got_chars_on_line == 0 && input < input_end && (*input == '-' || *input == '+')) {
         /* special case - -/--/--- or +/++/+++, but not at the beginning of the line, but after some white space */
         output--;
         for ( ; input < input_end && (*input == '+' || *input == '-'); input++, output++)
           *output = *input;     
       }
-      else if (got_chars_on_line == 0 && *input == '_') {
+      else if (got_chars_on_line == 0 && input < input_end && *input == '_') {
         /* special case - _/__, but not at the beginning of the line, but after some white space */
         output--;
         for ( ; input < input_end && *input == '_'; input++, output++)
@@ -941,8 +986,7 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
       *output = '(';
       input++;
       output++;
-      for ( ; input < input_end && (*input == ' ' || *input == 0x09); input++)
-        ;
+      input = _skip_white_space(input, input_end);
       got_chars_on_line = 1;
       break;
 #if !defined(W65816) && !defined(SPC700)
@@ -988,8 +1032,7 @@ int preprocess_file(char *input, char *input_end, char *out_buffer, int *out_siz
         *output = *input;
         input++;
         output++;
-        for ( ; input < input_end && (*input == ' ' || *input == 0x09); input++)
-          ;
+        input = _skip_white_space(input, input_end);
         got_chars_on_line = 1;
       }
       break;
-- 
2.43.0


From bf5f5aadfbd77eb6b40e5d77221b7f8297bd2c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 37/45] fix: .ENDASM skips any text, and ends inside a file
 once

---
 phase_1.c | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index d71c2ad..97acdeb 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11824,29 +11824,55 @@ int parse_directive(void) {
     
       /* ENDASM */
       if (strcmp(directive_upper, "ENDASM") == 0) {
-        int endasm = 1, x;
+        int endasm = 1, length;
 
-        while (1) {
-          x = g_source_index;
-          q = get_next_token();
-          if (q == GET_NEXT_TOKEN_STRING)
+        /* skip the text as it is, only .ASM and .ENDASM mean something here */
+        while (g_source_index < g_source_file_size) {
+          char *token = &g_buffer[g_source_index];
+
+          if (token[0] == 0x0A) {
+            g_source_index++;
+            next_line();
             continue;
+          }
+          if (token[0] == ' ' || token[0] == ',') {
+            g_source_index++;
+            g_newline_beginning = OFF;
+            continue;
+          }
+
+          /* a string? */
+          if (token[0] == '"') {
+            for (length = 1; token[length] != 0x0A && token[length] != '"'; length++) {
+              if (token[length] == '\\' && (token[length + 1] == '"' || token[length + 1] == '\\'))
+                length++;
+            }
+            if (token[length] == '"') {
+              g_source_index += length + 1;
+              continue;
+            }
+          }
+
+          for (length = 1; token[length] != 0x0A && token[length] != ' ' && token[length] != ',' && token[length] != '"'; length++)
+            ;
 
           /* end of file? */
-          if (strcmp(g_tmp, ".E") == 0) {
-            g_source_index = x;
-            if (g_is_file_isolated_counter > 0)
-              g_is_file_isolated_counter--;
+          if (length == 2 && token[0] == '.' && token[1] == 'E' && token[2] == ' ' && g_newline_beginning == ON)
             return SUCCEEDED;
-          }
-          if (strcaselesscmp(g_tmp, ".ASM") == 0) {
+
+          g_source_index += length;
+          g_newline_beginning = OFF;
+
+          if (length == 4 && strcaselesscmpn(token, ".ASM", 4) == 0) {
             endasm--;
             if (endasm == 0)
               return SUCCEEDED;
           }
-          if (strcaselesscmp(g_tmp, ".ENDASM") == 0)
+          if (length == 7 && strcaselesscmpn(token, ".ENDASM", 7) == 0)
             endasm++;
         }
+
+        return SUCCEEDED;
       }
 
       /* EMPTYFILL */
-- 
2.43.0


From 16347b67d6d019951c409ea2b372b739645a0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 38/45] fix: header vectors and pointers, header value ranges,
 and the place of the SMS checksum

---
 defines.h         |   3 +
 phase_1.c         | 164 ++++++++++++++++++++++++++++++++++++----------
 phase_2.c         |  22 +++++--
 stack.c           |  15 +++++
 stack.h           |   1 +
 wlalink/compute.c |  40 +++--------
 6 files changed, 175 insertions(+), 70 deletions(-)

diff --git a/defines.h b/defines.h
index 48449fa..c56b613 100644
--- a/defines.h
+++ b/defines.h
@@ -44,6 +44,9 @@
 #define OUTPUT_LIBRARY 1
 #define OUTPUT_NONE    2
 
+/* .ROMSIZE without a value (GB): use the number of the ROM banks */
+#define GB_ROMSIZE_AUTOMATIC -1000
+
 #define ERROR_NONE 0
 #define ERROR_LOG  1
 #define ERROR_DIR  2
diff --git a/phase_1.c b/phase_1.c
index 97acdeb..0c51ac4 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -84,7 +84,7 @@ extern int g_resolve_stack_calculations;
 
 #if defined(W65816)
 char g_snesid[4];
-int g_snesid_defined = 0, g_snesromsize = 0;
+int g_snesid_defined = 0, g_snesromsize = 0, g_snesromsize_defined = 0;
 int g_sramsize_defined = 0, g_sramsize = 0, g_country_defined = 0, g_country = 0;
 int g_cartridgetype = 0, g_cartridgetype_defined = 0, g_licenseecode_defined = 0, g_licenseecode = 0;
 int g_version_defined = 0, g_version = 0;
@@ -7394,7 +7394,7 @@ int directive_gbheader(void) {
 
       if (number_result == INPUT_NUMBER_EOL) {
         next_line();
-        g_parsed_int = -1;
+        g_parsed_int = GB_ROMSIZE_AUTOMATIC;
       }
       else if (number_result == SUCCEEDED && (g_parsed_int < -128 || g_parsed_int > 255)) {
         print_error(ERROR_DIR, "ROMSIZE needs a 8-bit value, got %d.\n", g_parsed_int);
@@ -8606,7 +8606,7 @@ int directive_smsheader(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
         print_error(ERROR_DIR, "PRODUCTCODE needs 2.5 bytes of data.\n");
         return FAILED;
       }
@@ -8618,7 +8618,7 @@ int directive_smsheader(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
         print_error(ERROR_DIR, "PRODUCTCODE needs 2.5 bytes of data.\n");
         return FAILED;
       }
@@ -8629,7 +8629,7 @@ int directive_smsheader(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
+      if (q != SUCCEEDED || g_parsed_int < 0 || g_parsed_int > 15) {
         print_error(ERROR_DIR, "PRODUCTCODE needs 2.5 bytes of data.\n");
         return FAILED;
       }
@@ -8641,7 +8641,7 @@ int directive_smsheader(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
         print_error(ERROR_DIR, "RESERVEDSPACE needs 2 bytes of data.\n");
         return FAILED;
       }
@@ -8653,7 +8653,7 @@ int directive_smsheader(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
         print_error(ERROR_DIR, "RESERVEDSPACE needs 2 bytes of data.\n");
         return FAILED;
       }
@@ -8688,8 +8688,8 @@ int directive_smsheader(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
-        print_error(ERROR_DIR, "FORCECHECKSUM needs the checksum.\n");
+      if (q != SUCCEEDED || g_parsed_int < -32768 || g_parsed_int > 65535) {
+        print_error(ERROR_DIR, "FORCECHECKSUM needs a 16-bit checksum.\n");
         return FAILED;
       }
 
@@ -9695,7 +9695,7 @@ int directive_snesheader(void) {
       if ((token_result = get_next_token()) == FAILED)
         return FAILED;
 
-      if (token_result != GET_NEXT_TOKEN_STRING || g_tmp[4] != 0) {
+      if (token_result != GET_NEXT_TOKEN_STRING || strlen(g_tmp) > 4) {
         print_error(ERROR_DIR, "ID requires a string of 1 to 4 letters.\n");
         return FAILED;
       }
@@ -9846,7 +9846,7 @@ int directive_snesheader(void) {
     else if (strcaselesscmp(g_tmp, "ROMSIZE") == 0) {
       int number_result;
 
-      if (g_snesromsize != 0) {
+      if (g_snesromsize_defined != 0) {
         print_error(ERROR_DIR, "ROMSIZE can be defined only once.\n");
         return FAILED;
       }
@@ -9857,8 +9857,10 @@ int directive_snesheader(void) {
         print_error(ERROR_DIR, "ROMSIZE expects 8-bit data, %d is out of range!\n", g_parsed_int);
         return FAILED;
       }
-      else if (number_result == SUCCEEDED)
+      else if (number_result == SUCCEEDED) {
         g_snesromsize = g_parsed_int;
+        g_snesromsize_defined = 1;
+      }
       else
         return FAILED;
     }
@@ -10045,8 +10047,16 @@ int directive_snesnativevector(void) {
         snprintf(cop, sizeof(cop), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(cop, sizeof(cop), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(cop, sizeof(cop), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "COP expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       cop_defined++;
     }
@@ -10069,8 +10079,16 @@ int directive_snesnativevector(void) {
         snprintf(brk, sizeof(brk), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(brk, sizeof(brk), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(brk, sizeof(brk), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "BRK expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       brk_defined++;
     }
@@ -10093,8 +10111,16 @@ int directive_snesnativevector(void) {
         snprintf(abort, sizeof(abort), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(abort, sizeof(abort), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(abort, sizeof(abort), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "ABORT expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       abort_defined++;
     }
@@ -10117,8 +10143,16 @@ int directive_snesnativevector(void) {
         snprintf(nmi, sizeof(nmi), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(nmi, sizeof(nmi), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(nmi, sizeof(nmi), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "NMI expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       nmi_defined++;
     }
@@ -10141,8 +10175,16 @@ int directive_snesnativevector(void) {
         snprintf(unused, sizeof(unused), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(unused, sizeof(unused), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(unused, sizeof(unused), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "UNUSED expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       unused_defined++;
     }
@@ -10165,8 +10207,16 @@ int directive_snesnativevector(void) {
         snprintf(irq, sizeof(irq), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(irq, sizeof(irq), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(irq, sizeof(irq), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "IRQ expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       irq_defined++;
     }
@@ -10271,8 +10321,16 @@ int directive_snesemuvector(void) {
         snprintf(cop, sizeof(cop), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(cop, sizeof(cop), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(cop, sizeof(cop), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "COP expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       cop_defined++;
     }
@@ -10295,8 +10353,16 @@ int directive_snesemuvector(void) {
         snprintf(reset, sizeof(reset), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(reset, sizeof(reset), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(reset, sizeof(reset), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "RESET expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       reset_defined++;
     }
@@ -10319,8 +10385,16 @@ int directive_snesemuvector(void) {
         snprintf(abort, sizeof(abort), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(abort, sizeof(abort), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(abort, sizeof(abort), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "ABORT expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       abort_defined++;
     }
@@ -10343,8 +10417,16 @@ int directive_snesemuvector(void) {
         snprintf(nmi, sizeof(nmi), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(nmi, sizeof(nmi), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(nmi, sizeof(nmi), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "NMI expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       nmi_defined++;
     }
@@ -10367,8 +10449,16 @@ int directive_snesemuvector(void) {
         snprintf(unused, sizeof(unused), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(unused, sizeof(unused), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(unused, sizeof(unused), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "UNUSED expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       unused_defined++;
     }
@@ -10391,8 +10481,16 @@ int directive_snesemuvector(void) {
         snprintf(irqbrk, sizeof(irqbrk), "y%d ", g_parsed_int);
       else if (number_result == INPUT_NUMBER_ADDRESS_LABEL)
         snprintf(irqbrk, sizeof(irqbrk), "k%d r%s ", g_active_file_info_last->line_current, g_label);
-      else if (number_result == INPUT_NUMBER_STACK)
+      else if (number_result == INPUT_NUMBER_STACK) {
+        if (move_stack_calculation_to_section(g_latest_stack, g_sec_tmp) == FAILED)
+          return FAILED;
         snprintf(irqbrk, sizeof(irqbrk), "C%d ", g_latest_stack);
+      }
+      else {
+        if (number_result != FAILED)
+          print_error(ERROR_DIR, "IRQBRK expects 16-bit data or a label.\n");
+        return FAILED;
+      }
 
       irqbrk_defined++;
     }
@@ -11367,8 +11465,8 @@ int parse_directive(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED || q < 0) {
-        print_error(ERROR_DIR, ".COUNTRYCODE needs a non-negative value.\n");
+      if (q != SUCCEEDED || g_parsed_int < 0 || g_parsed_int > 255) {
+        print_error(ERROR_DIR, ".COUNTRYCODE needs a value between 0 and 255.\n");
         return FAILED;
       }
 
@@ -11400,8 +11498,8 @@ int parse_directive(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q != SUCCEEDED) {
-        print_error(ERROR_DIR, ".CARTRIDGETYPE needs an immediate value.\n");
+      if (q != SUCCEEDED || g_parsed_int < -128 || g_parsed_int > 255) {
+        print_error(ERROR_DIR, ".CARTRIDGETYPE needs a 8-bit value.\n");
         return FAILED;
       }
 
@@ -11636,8 +11734,8 @@ int parse_directive(void) {
 
         if (q == FAILED)
           return FAILED;
-        if (q != SUCCEEDED || q < 0) {
-          print_error(ERROR_DIR, ".DESTINATIONCODE needs a non-negative value.\n");
+        if (q != SUCCEEDED || g_parsed_int < 0 || g_parsed_int > 255) {
+          print_error(ERROR_DIR, ".DESTINATIONCODE needs a value between 0 and 255.\n");
           return FAILED;
         }
 
@@ -12369,10 +12467,10 @@ int parse_directive(void) {
         return FAILED;
       else if (q == INPUT_NUMBER_EOL) {
         next_line();
-        g_parsed_int = -1;
+        g_parsed_int = GB_ROMSIZE_AUTOMATIC;
       }
-      else if (q != SUCCEEDED || g_parsed_int < 0) {
-        print_error(ERROR_DIR, ".ROMSIZE needs a non-negative value.\n");
+      else if (q != SUCCEEDED || g_parsed_int < 0 || g_parsed_int > 255) {
+        print_error(ERROR_DIR, ".ROMSIZE needs a value between 0 and 255.\n");
         return FAILED;
       }
 
diff --git a/phase_2.c b/phase_2.c
index 7ec9455..bf47183 100644
--- a/phase_2.c
+++ b/phase_2.c
@@ -13,6 +13,7 @@
 #include "phase_4.h"
 #include "hashmap.h"
 #include "printf.h"
+#include "stack.h"
 #include "main.h"
 
 
@@ -48,7 +49,7 @@ extern int g_smsforcechecksum, g_smsforcechecksum_defined, g_smschecksumsize, g_
 #if defined(W65816)
 extern char g_name[32];
 extern char g_snesid[4];
-extern int g_snesid_defined, g_snesromsize;
+extern int g_snesid_defined, g_snesromsize, g_snesromsize_defined;
 extern int g_sramsize_defined, g_sramsize, g_country_defined, g_country;
 extern int g_licenseecode_defined, g_licenseecode;
 extern int g_version_defined, g_version, g_cartridgetype, g_cartridgetype_defined;
@@ -110,7 +111,7 @@ void _write_snes_cartridge_information(int start) {
   if (g_cartridgetype_defined != 0) 
     mem_insert_absolute(start + 1, g_cartridgetype);
 
-  if (g_snesromsize != 0) 
+  if (g_snesromsize_defined != 0) 
     mem_insert_absolute(start + 2, g_snesromsize);
 
   if (g_sramsize_defined != 0) 
@@ -259,8 +260,11 @@ int phase_2(void) {
       fprintf(g_file_out_ptr, "y%d ", g_sdsctag_author_value);
     else if (g_sdsctag_author_type == TYPE_LABEL)
       fprintf(g_file_out_ptr, "r%s ", g_sdsctag_author_str);
-    else if (g_sdsctag_author_type == TYPE_STACK_CALCULATION)
+    else if (g_sdsctag_author_type == TYPE_STACK_CALCULATION) {
+      if (move_stack_calculation_to_section(g_sdsctag_author_value, g_sec_tmp) == FAILED)
+        return FAILED;
       fprintf(g_file_out_ptr, "C%d ", g_sdsctag_author_value);
+    }
     else
       fprintf(g_file_out_ptr, "r *WLA_SDSC_PRG_AUTHOR_PTR ");
 
@@ -268,8 +272,11 @@ int phase_2(void) {
       fprintf(g_file_out_ptr, "y%d ", g_sdsctag_name_value);
     else if (g_sdsctag_name_type == TYPE_LABEL)
       fprintf(g_file_out_ptr, "r%s ", g_sdsctag_name_str);
-    else if (g_sdsctag_name_type == TYPE_STACK_CALCULATION)
+    else if (g_sdsctag_name_type == TYPE_STACK_CALCULATION) {
+      if (move_stack_calculation_to_section(g_sdsctag_name_value, g_sec_tmp) == FAILED)
+        return FAILED;
       fprintf(g_file_out_ptr, "C%d ", g_sdsctag_name_value);
+    }
     else
       fprintf(g_file_out_ptr, "r *WLA_SDSC_PRG_NAME_PTR ");
 
@@ -277,8 +284,11 @@ int phase_2(void) {
       fprintf(g_file_out_ptr, "y%d ", g_sdsctag_notes_value);
     else if (g_sdsctag_notes_type == TYPE_LABEL)
       fprintf(g_file_out_ptr, "r%s ", g_sdsctag_notes_str);
-    else if (g_sdsctag_notes_type == TYPE_STACK_CALCULATION)
+    else if (g_sdsctag_notes_type == TYPE_STACK_CALCULATION) {
+      if (move_stack_calculation_to_section(g_sdsctag_notes_value, g_sec_tmp) == FAILED)
+        return FAILED;
       fprintf(g_file_out_ptr, "C%d ", g_sdsctag_notes_value);
+    }
     else
       fprintf(g_file_out_ptr, "r *WLA_SDSC_PRG_NOTES_PTR ");
 
@@ -522,7 +532,7 @@ int phase_2(void) {
     if (g_rombanks_defined != 0 && g_romsize_defined != 0) {
       int romsize = g_romsize;
 
-      if (romsize < 0) {
+      if (romsize == GB_ROMSIZE_AUTOMATIC) {
         int b = g_rombanks;
 
         if (b == 2)
diff --git a/stack.c b/stack.c
index e5c930f..4daf750 100644
--- a/stack.c
+++ b/stack.c
@@ -214,6 +214,21 @@ struct stack *find_stack_calculation(int id, int print_error_message) {
 }
 
 
+int move_stack_calculation_to_section(int id, struct section_def *section) {
+
+  /* some calculations are parsed before the (header) section they get written into is opened, so they don't know about it */
+  struct stack *s = find_stack_calculation(id, YES);
+
+  if (s == NULL)
+    return FAILED;
+
+  s->section_status = ON;
+  s->section_id = section->id;
+
+  return SUCCEEDED;
+}
+
+
 int compress_stack_calculation_ids(void) {
 
   struct stack **stack_calculations = NULL;
diff --git a/stack.h b/stack.h
index 4c41c2f..416403f 100644
--- a/stack.h
+++ b/stack.h
@@ -15,6 +15,7 @@ void init_stack_struct(struct stack *s);
 void free_stack_calculations(void);
 void delete_stack_calculation_struct(struct stack *s);
 struct stack *find_stack_calculation(int id, int print_error_message);
+int move_stack_calculation_to_section(int id, struct section_def *section);
 
 #if defined(MC68000)
 int stack_create_stack_caddr_offset(int type, int data, char *label);
diff --git a/wlalink/compute.c b/wlalink/compute.c
index 9a86a5c..fb46959 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -477,42 +477,24 @@ int compute_sms_checksum(void) {
     /* we have the ROM size written in the header so let's use it */
     int rom_size = g_rom[tag_address + 0xF] & 0xF;
     
-    if (rom_size == 0x0A) {
-      tag_address = 0x1FF0;
+    if (rom_size == 0x0A)
       checksum_max = 8*1024;
-    }
-    else if (rom_size == 0x0B) {
-      tag_address = 0x3FF0;
+    else if (rom_size == 0x0B)
       checksum_max = 16*1024;
-    }
-    else if (rom_size == 0x0C) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0C)
       checksum_max = 32*1024;
-    }
-    else if (rom_size == 0x0D) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0D)
       checksum_max = 48*1024;
-    }
-    else if (rom_size == 0x0E) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0E)
       checksum_max = 64*1024;
-    }
-    else if (rom_size == 0x0F) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0F)
       checksum_max = 128*1024;
-    }
-    else if (rom_size == 0x00) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x00)
       checksum_max = 256*1024;
-    }
-    else if (rom_size == 0x01) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x01)
       checksum_max = 512*1024;
-    }
-    else if (rom_size == 0x02) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x02)
       checksum_max = 1024*1024;
-    }
     else {
       print_text(NO, "COMPUTE_SMS_CHECKSUM: Unsupported ROMSIZE $%x - not calculating the checksum.\n", rom_size);
       return SUCCEEDED;
@@ -522,10 +504,6 @@ int compute_sms_checksum(void) {
       print_text(NO, "COMPUTE_SMS_CHECKSUM: Defined ROMSIZE $%x (%dKBs) is bigger than the ROM image (%dKBs) itself - not calculating the checksum.\n", rom_size, checksum_max / 1024, g_romsize / 1024);
       return FAILED;
     }
-
-    /* BASEADDRESS override */
-    if (g_romheader_baseaddress != -1)
-      tag_address = g_romheader_baseaddress;
   }
   else {
     /* no ROM size defined in the header, calculate until the header */
-- 
2.43.0


From cb8f7eef47d6b2e71532d9eba721f9d6e1b6784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 39/45] fix: numbers like 0b1h are hexadecimal in link files as
 well

---
 wlalink/parse.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wlalink/parse.c b/wlalink/parse.c
index 97cba32..01ceb08 100644
--- a/wlalink/parse.c
+++ b/wlalink/parse.c
@@ -54,13 +54,17 @@ int get_next_token(char *in, char *out, int *pos) {
 
 int get_next_number(char *in, int *out, int *pos) {
 
-  int i, o, n;
+  int i, o, n, suffix_h;
 
   /* skip white space */
   for (i = 0; in[i] == ' ' || in[i] == 0x09; i++);
   if (in[i] == 0)
     return FAILED;
 
+  /* 0b1h is a hexadecimal number, not a binary one */
+  for (n = i; isxdigit((unsigned char)in[n]) != 0; n++);
+  suffix_h = in[n] == 'h' || in[n] == 'H';
+
   if (in[i] == '$' || (in[i] == '0' && (in[i+1] == 'x' || in[i+1] == 'X'))) {
     /* hex */
     if (in[i] == '$')
@@ -82,7 +86,7 @@ int get_next_number(char *in, int *out, int *pos) {
       i++;
     }
   }
-  else if (in[i] == '%' || (in[i] == '0' && (in[i+1] == 'b' || in[i+1] == 'B'))) {
+  else if (in[i] == '%' || (in[i] == '0' && (in[i+1] == 'b' || in[i+1] == 'B') && suffix_h == 0)) {
     /* binary */
     if (in[i] == '%')
       i++;
-- 
2.43.0


From 6ea95f466c964297753f1665b36a23ec1f274128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 40/45] fix: .EMPTYFILL of the objects that declare it only,
 room of SIZEd sections before following code

---
 listfile.c      |  2 ++
 phase_3.c       | 14 ++++++++++++--
 phase_3.h       |  1 +
 phase_4.c       | 13 ++++++++++++-
 stack.c         |  2 +-
 wlalink/check.c | 11 ++++++++---
 6 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/listfile.c b/listfile.c
index f570b84..0f72772 100644
--- a/listfile.c
+++ b/listfile.c
@@ -134,6 +134,8 @@ int listfile_collect(void) {
     case 's':
       if (section != NULL && section->advance_org == NO)
         origin = origin_old;
+      else if (section != NULL && section->maxsize_status == ON && origin - origin_old < section->maxsize)
+        origin = origin_old + section->maxsize;
       section = NULL;
       add = 0;
       skip = 0;
diff --git a/phase_3.c b/phase_3.c
index 4a49268..99aeb6c 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -140,6 +140,16 @@ static int _add_label(struct label_def *l, struct section_def *s, int line_numbe
 }
 
         
+int get_section_size_with_padding(struct section_def *s) {
+
+  /* SIZE makes the section occupy more room than what its contents need */
+  if (s->alive == YES && s->maxsize_status == ON && s->maxsize > s->size)
+    return s->maxsize;
+
+  return s->size;
+}
+
+
 int phase_3(void) {
 
   int bank = 0, slot = 0, address = 0, file_name_id = 0, inz, line_number = 0, o, address_old = 0, base = 0, bits_current = 0, x, y, err;
@@ -590,7 +600,7 @@ int phase_3(void) {
         if (s->advance_org == NO)
           address = address_old;
         else
-          address = address_old + s->size;
+          address = address_old + get_section_size_with_padding(s);
 
         g_section_status = OFF;
         s = NULL;
@@ -846,7 +856,7 @@ int phase_3(void) {
       if (s->advance_org == NO)
         address = address_old;
       else
-        address = address_old + s->size;
+        address = address_old + get_section_size_with_padding(s);
       
       g_section_status = OFF;
       s = NULL;
diff --git a/phase_3.h b/phase_3.h
index 64511c4..da63579 100644
--- a/phase_3.h
+++ b/phase_3.h
@@ -3,6 +3,7 @@
 #define _PHASE_3_H
 
 int phase_3(void);
+int get_section_size_with_padding(struct section_def *s);
 int is_label_anonymous(char *label);
 int mangle_label(char *label, char *parent, int n, unsigned int label_size, int file_name_id, int line_number);
 int add_namespace(char *label, char *name_space, unsigned int label_size, int file_name_id, int line_number);
diff --git a/phase_4.c b/phase_4.c
index 440e52d..548a7cf 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -43,7 +43,7 @@ extern int g_licenseecodeold_defined, g_licenseecodenew_defined;
 extern int g_licenseecodeold, g_romgbc;
 #endif
 
-extern int g_romtype, g_rambanks, g_emptyfill, g_max_address;
+extern int g_romtype, g_rambanks, g_emptyfill, g_emptyfill_defined, g_max_address;
 extern int g_rambanks_defined, g_verbose_level;
 extern int g_section_status;
 extern int g_banksize, g_banksize_defined;
@@ -531,6 +531,13 @@ int phase_4(void) {
         s_pc_slot = g_slots[s_slot].address + s_pc_bank;
         s_pc_slot_max = g_slots[s_slot].address + g_slots[s_slot].size;
       }
+      else if (g_sec_tmp->alive == YES && g_sec_tmp->maxsize_status == ON && g_sec_tmp->i < g_sec_tmp->maxsize) {
+        /* skip the padding */
+        ind = g_sec_tmp->maxsize - g_sec_tmp->i;
+        s_pc_bank += ind;
+        s_pc_full += ind;
+        s_pc_slot += ind;
+      }
 
       continue;
 
@@ -2243,6 +2250,10 @@ int write_object_file(void) {
   if (g_computesmdchecksum_defined != 0)
     ind |= 1 << 3;
 #endif
+
+  /* was .EMPTYFILL used in this object file? */
+  if (g_emptyfill_defined != 0)
+    ind |= 1 << 4;
   
   fprintf(final_ptr, "%c", ind);
 
diff --git a/stack.c b/stack.c
index 4daf750..39c9a43 100644
--- a/stack.c
+++ b/stack.c
@@ -5082,7 +5082,7 @@ int data_stream_parser_parse(void) {
       if (s_dsp_s->advance_org == NO)
         s_dsp_add = s_dsp_add_old;
       else
-        s_dsp_add = s_dsp_add_old + s_dsp_s->size;
+        s_dsp_add = s_dsp_add_old + get_section_size_with_padding(s_dsp_s);
       
       s_dsp_section_id = -1;
       s_dsp_s = NULL;
diff --git a/wlalink/check.c b/wlalink/check.c
index 1aac09d..2b69419 100644
--- a/wlalink/check.c
+++ b/wlalink/check.c
@@ -67,7 +67,7 @@ static char *_get_snes_rom_mode(int mode) {
 
 int check_headers(void) {
 
-  int count = 0, misc_bits, e;
+  int count = 0, misc_bits, e, emptyfill_defined = 0;
   struct object_file *o;
   unsigned char *t;
   
@@ -100,6 +100,8 @@ int check_headers(void) {
       if (count == 0) {
         /* empty fill */
         g_emptyfill = *(o->data + OBJ_EMPTY_FILL);
+        if (g_emptyfill != 0 || ((extr_bits >> 4) & 1) != 0)
+          emptyfill_defined = 1;
         /* misc bits */
         g_sms_checksum = misc_bits & 1;
         g_snes_rom_mode = misc_bits & 2;
@@ -128,9 +130,12 @@ int check_headers(void) {
       }
       else {
         e = *(o->data + OBJ_EMPTY_FILL);
-        if (e != g_emptyfill) {
-          print_text(YES, "CHECK_HEADERS: Conflicting empty fill in file \"%s\". Old $%.2x, new $%.2x. Using $%.2x.\n", o->name, g_emptyfill, e, e);
+        /* an object file that doesn't use .EMPTYFILL has nothing to say about it */
+        if (e != 0 || ((extr_bits >> 4) & 1) != 0) {
+          if (emptyfill_defined != 0 && e != g_emptyfill)
+            print_text(YES, "CHECK_HEADERS: Conflicting empty fill in file \"%s\". Old $%.2x, new $%.2x. Using $%.2x.\n", o->name, g_emptyfill, e, e);
           g_emptyfill = e;
+          emptyfill_defined = 1;
         }
 
         if (g_sms_checksum == 0 && (misc_bits & 1) != 0)
-- 
2.43.0


From 3dccc50c6b923f099d3c7823144c75774a84ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 41/45] fix: labels of one letter or one repeated letter are
 not anonymous

---
 phase_3.c | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/phase_3.c b/phase_3.c
index 99aeb6c..32c8486 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -1296,10 +1296,10 @@ int phase_3(void) {
 /* is the label of form __, -, --, ---, +, ++, +++, -:context, +:context ... ? */
 int is_label_anonymous(char *label) {
 
-  int i, length;
   char c;
 
-  if (strcmp(label, "__") == 0)
+  /* a context might follow */
+  if (strcmp(label, "__") == 0 || strncmp(label, "__:", 3) == 0)
     return YES;
 
   if (strlen(label) == 2 && label[0] == '_') {
@@ -1312,18 +1312,7 @@ int is_label_anonymous(char *label) {
   if (c == '-' || c == '+')
     return YES;
 
-  length = (int)strlen(label);
-  for (i = 1; i < length; i++) {
-    if (label[i] == c)
-      continue;
-    /* context follows? */
-    if (label[i] == ':')
-      return YES;
-
-    return NO;
-  }
-  
-  return YES;
+  return NO;
 }
 
 
-- 
2.43.0


From 6c36ef91b659e80602d328cfb7d6916958dce13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 42/45] fix: banks of symbols and breakpoints in symbol files
 include .BASE

---
 wlalink/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index deed81d..28cfcb2 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2473,7 +2473,7 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
         }
 
         if (g_snes_mode == 0)
-          fprintf(f, "%.2x:%.4x %s\n", l->bank, (int)l->address, l->name);
+          fprintf(f, "%.2x:%.4x %s\n", l->base + l->bank, (int)l->address, l->name);
         else
           fprintf(f, "%.2x:%.4x %s\n", get_snes_pc_bank(l)>>16, (int)l->address, l->name);
 
@@ -2502,7 +2502,7 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
         }
 
         if (g_snes_mode == 0)
-          fprintf(f, "%.2x:%.4x\n", l->bank, (int)l->address);
+          fprintf(f, "%.2x:%.4x\n", l->base + l->bank, (int)l->address);
         else
           fprintf(f, "%.2x:%.4x\n", get_snes_pc_bank(l)>>16, (int)l->address);
 
-- 
2.43.0


From fc6bea4d989707fa585bd85630a469c10743603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 43/45] fix: the bank operator in 24-bit calculations, banks of
 RAM_USAGE labels on SNES

---
 wlalink/write.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 28cfcb2..bf6c425 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4521,11 +4521,9 @@ int parse_stack(struct stack *sta) {
         return FAILED;
       }
 
-      /* 65816 cpu bank fix */
-      if (sta->type == STACK_TYPE_24BIT && l->status == LABEL_STATUS_LABEL) {
-        k_rom += get_snes_pc_bank(l);
+      /* 65816 cpu bank fix. the ROM address needs to stay as it is, as the bank operator (':') uses it */
+      if (sta->type == STACK_TYPE_24BIT && l->status == LABEL_STATUS_LABEL)
         k_ram += get_snes_pc_bank(l);
-      }
 
       si->slot = l->slot;
       if (l->section_status == ON && l->section_struct != NULL && (l->section_struct->status == SECTION_STATUS_RAM_FREE ||
@@ -4570,10 +4568,14 @@ int get_snes_pc_bank(struct label *l) {
 
   /* do we override the user's banking scheme (.HIROM/.LOROM/.EXHIROM/.EXLOROM)? */
   if (g_snes_mode != 0) {
-    if (l->section_status == ON && l->section_struct != NULL && (l->section_struct->status == SECTION_STATUS_RAM_FREE ||
-                                                                 l->section_struct->status == SECTION_STATUS_RAM_SEMIFREE ||
-                                                                 l->section_struct->status == SECTION_STATUS_RAM_SEMISUBFREE ||
-                                                                 l->section_struct->status == SECTION_STATUS_RAM_FORCE)) {
+    if (l->file_id < 0) {
+      /* RAM_USAGE_SLOT_* that we've generated ourselves */
+      x = l->bank;
+    }
+    else if (l->section_status == ON && l->section_struct != NULL && (l->section_struct->status == SECTION_STATUS_RAM_FREE ||
+                                                                      l->section_struct->status == SECTION_STATUS_RAM_SEMIFREE ||
+                                                                      l->section_struct->status == SECTION_STATUS_RAM_SEMISUBFREE ||
+                                                                      l->section_struct->status == SECTION_STATUS_RAM_FORCE)) {
       /* on SNES RAMSECTION labels are handled differently */
       x = l->bank;
     }
-- 
2.43.0


From a7fcd5f2359aba97ec0758b914d3c431c13f8d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 44/45] fix: labels starting with an underscore outside
 sections are visible only in their object file

---
 wlalink/analyze.c | 15 ++++++++++++++-
 wlalink/analyze.h |  2 +-
 wlalink/defines.h |  1 +
 wlalink/discard.c |  8 ++++----
 wlalink/main.c    |  2 ++
 wlalink/write.c   | 35 +++++++++++++++++++++++++++--------
 6 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 30b4380..3622ea9 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -387,7 +387,7 @@ int free_section(struct section *s) {
 }
 
 
-int find_label(char *str, struct section *s, struct label **out) {
+int find_label(char *str, struct section *s, int file_id, struct label **out) {
 
   char *str2, *stripped;
   char prefix[MAX_NAME_LENGTH*2+2];
@@ -434,6 +434,19 @@ int find_label(char *str, struct section *s, struct label **out) {
       return SUCCEEDED;
     }
   }
+  /* check the object file's local labels (labels starting with an underscore, outside sections). if we don't know who's asking
+     (e.g., command line flags) then any object file's local label will do */
+  if (str[0] == '_') {
+    struct object_file *o = g_obj_first;
+
+    while (o != NULL) {
+      if ((file_id < 0 || o->id == file_id) && o->local_label_map != NULL && hashmap_get(o->local_label_map, str, (void*)&l) == MAP_OK) {
+        *out = l;
+        return SUCCEEDED;
+      }
+      o = o->next;
+    }
+  }
   /* check the global namespace */
   if (hashmap_get(g_global_unique_label_map, str, (void*)&l) == MAP_OK) {
     *out = l;
diff --git a/wlalink/analyze.h b/wlalink/analyze.h
index cd93472..69a0653 100644
--- a/wlalink/analyze.h
+++ b/wlalink/analyze.h
@@ -6,7 +6,7 @@ int free_stack(struct stack *s);
 int add_label(struct label *l);
 int add_section(struct section *s);
 int free_section(struct section *s);
-int find_label(char *name, struct section *context, struct label **l);
+int find_label(char *name, struct section *context, int file_id, struct label **l);
 int parse_data_blocks(void);
 int obtain_source_file_names(void);
 int obtain_memorymap(void);
diff --git a/wlalink/defines.h b/wlalink/defines.h
index 948d200..e48f46a 100644
--- a/wlalink/defines.h
+++ b/wlalink/defines.h
@@ -101,6 +101,7 @@ struct object_file {
   int *listfile_ints;
   char *listfile_cmds;
   struct source_file_name *source_file_names_list;
+  struct map_t *local_label_map;
   struct stack **stacks;
   int stacks_max;
   int stacks_array_max;
diff --git a/wlalink/discard.c b/wlalink/discard.c
index afe07a4..cbc68f1 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -89,12 +89,12 @@ static struct section *_find_any_section(int section_status, int id) {
 
 /* mark the section of a label referenced. "scope" is the section where the label's name was written, "user" is the section that
    makes the reference (NULL when it's not made inside a section) */
-static void _mark_referenced_section(char *name, struct section *scope, struct section *user, int depth) {
+static void _mark_referenced_section(char *name, struct section *scope, int file_id, struct section *user, int depth) {
 
   struct label *l;
   struct section *s;
   
-  find_label(name, scope, &l);
+  find_label(name, scope, file_id, &l);
 
   if (l == NULL)
     return;
@@ -126,7 +126,7 @@ static void _mark_stack_items(struct stack *st, struct section *scope, struct se
     si = &st->stack_items[i];
     
     if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO)
-      _mark_referenced_section(si->string, scope, user, depth);
+      _mark_referenced_section(si->string, scope, st->file_id, user, depth);
     else if (si->type == STACK_ITEM_TYPE_STACK)
       _mark_used_stack(find_stack((int)si->value_ram, si->stack_file_id >= 0 ? si->stack_file_id : st->file_id), user, depth);
   }
@@ -175,7 +175,7 @@ int discard_iteration(void) {
     }
 
     s = _find_any_section(r->section_status, r->section);
-    _mark_referenced_section(r->name, s, s, 0);
+    _mark_referenced_section(r->name, s, r->file_id, s, 0);
     
     r = r->next;
   }
diff --git a/wlalink/main.c b/wlalink/main.c
index 9c98013..00bf8e1 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -796,6 +796,8 @@ static void _procedures_at_exit(void) {
   free(g_section_table_table);
   
   while (g_obj_first != NULL) {
+    if (g_obj_first->local_label_map != NULL)
+      hashmap_free(g_obj_first->local_label_map);
     f = g_obj_first->source_file_names_list;
     while (f != NULL) {
       free(f->name);
diff --git a/wlalink/write.c b/wlalink/write.c
index bf6c425..3ed2893 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -101,7 +101,7 @@ int _cbm_write_prg_header(FILE *f) {
     /* find the address of the label */
     struct label *l;
     
-    find_label(g_load_address_label, NULL, &l);
+    find_label(g_load_address_label, NULL, -1, &l);
 
     if (l == NULL) {
       print_text(NO, "_CBM_WRITE_PRG_HEADER: Cannot find label \"%s\".\n", g_load_address_label);
@@ -1771,6 +1771,25 @@ int insert_label_into_maps(struct label* l, int is_sizeof) {
     }
   }
 
+  /* local labels outside sections are visible only inside their object file */
+  if (put_in_anything && l->section_status == OFF && base_name[0] == '_' && (l->status == LABEL_STATUS_LABEL || is_sizeof) && l->file_id >= 0) {
+    struct object_file *o = get_file(l->file_id);
+
+    if (o == NULL)
+      return FAILED;
+    if (o->local_label_map == NULL) {
+      o->local_label_map = hashmap_new();
+      if (o->local_label_map == NULL) {
+        print_text(NO, "INSERT_LABEL_INTO_MAPS: Out of memory error.\n");
+        return FAILED;
+      }
+    }
+
+    if (_try_put_label(o->local_label_map, l) == FAILED)
+      return FAILED;
+    put_in_global = 0;
+  }
+
   /* put the label into the global namespace */
   if (put_in_anything && put_in_global) {
     if (_try_put_label(g_global_unique_label_map, l) == FAILED)
@@ -1991,7 +2010,7 @@ int fix_references(void) {
         l = &lt;
       }
       else
-        find_label(&r->name[1], s, &l);
+        find_label(&r->name[1], s, r->file_id, &l);
 
       if (l == NULL || l->status == LABEL_STATUS_SYMBOL || l->status == LABEL_STATUS_BREAKPOINT) {
         print_text(NO, "%s: %s:%d: FIX_REFERENCES: Bank number request for an unknown label \"%s\".\n",
@@ -2103,7 +2122,7 @@ int fix_references(void) {
         l = &lt;
       }
       else
-        find_label(r->name, s, &l);
+        find_label(r->name, s, r->file_id, &l);
 
       if (l == NULL || l->status == LABEL_STATUS_SYMBOL || l->status == LABEL_STATUS_BREAKPOINT) {
         print_text(NO, "%s: %s:%d: FIX_REFERENCES: Reference to an unknown label \"%s\".\n",
@@ -2650,7 +2669,7 @@ static int _get_rom_address_of_label(char *label, int *address) {
 
   struct label *l;
 
-  find_label(label, NULL, &l);
+  find_label(label, NULL, -1, &l);
 
   if (l == NULL) {
     print_text(NO, "_GET_ROM_ADDRESS_OF_LABEL: Cannot find label \"%s\".\n", label);
@@ -4219,7 +4238,7 @@ int write_bank_header_references(struct reference *r) {
   t = s->data + r->address;
 
   /* find the destination */
-  find_label(r->name, s, &l);
+  find_label(r->name, s, r->file_id, &l);
   if (l != NULL) {
     a = (int)l->address;
     /* direct 16-bit */
@@ -4433,7 +4452,7 @@ int parse_stack(struct stack *sta) {
           l = &lt;
           }
           else {
-          find_label(&si->string[1], s, &l);
+          find_label(&si->string[1], s, sta->file_id, &l);
 
           if (l != NULL) {
           if (get_file(sta->file_id)->cpu_65816 == YES)
@@ -4480,13 +4499,13 @@ int parse_stack(struct stack *sta) {
           l = &lt;
         }
         else {
-          find_label(si->string, s, &l);
+          find_label(si->string, s, sta->file_id, &l);
 
           /* find matches until something else than a label is found */
           while (l != NULL && l->status == LABEL_STATUS_LABEL) {
             struct label *label_old = l;
             
-            find_label(l->string, s, &l);
+            find_label(l->string, s, sta->file_id, &l);
 
             if (l == NULL) {
               l = label_old;
-- 
2.43.0


From 3f175e9949f93540fe1f698326bc7b5a266a352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 45/45] fix: the address-to-line mapping of symbol files

---
 wlalink/write.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 3ed2893..88da2dc 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2637,21 +2637,38 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
       s = g_sec_first;
       while (s != NULL) {
+        struct section *s2 = s;
+        int section_offset = 0;
+
+        /* appended sections live inside the sections they were appended to */
+        while (s2->appended_to == YES) {
+          section_offset += s2->appended_to_offset;
+          s2 = s2->appended_to_section;
+        }
+
+        /* skip dropped sections and RAM sections */
+        if (s2->alive == NO || s2->status == SECTION_STATUS_RAM_FREE || s2->status == SECTION_STATUS_RAM_FORCE ||
+            s2->status == SECTION_STATUS_RAM_SEMIFREE || s2->status == SECTION_STATUS_RAM_SEMISUBFREE) {
+          s = s->next;
+          continue;
+        }
+
         /* parse the list file information */
-        list_address_offset = 0;
+        list_address_offset = section_offset;
         list_source_file = -1;
         for (list_cmd_idx = 0; list_cmd_idx < s->listfile_items; list_cmd_idx++) {
           list_cmd = s->listfile_cmds[list_cmd_idx];
           if (list_cmd == 'k') {
             /* new line */
-            if (s->listfile_ints[list_cmd_idx * 3 + 1] > 0) {
-              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s->output_address + list_address_offset, s->bank + s->base, s->address + list_address_offset, g_slots[s->slot].address + s->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 3 + 0]);
-              list_address_offset += s->listfile_ints[list_cmd_idx * 3 + 1];
+            list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 2];
+            if (s->listfile_ints[list_cmd_idx * 5 + 1] > 0) {
+              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s2->output_address + list_address_offset, s2->bank + s2->base, s2->address + list_address_offset, g_slots[s2->slot].address + s2->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 5 + 4]);
+              list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 1];
             }
           }
           else if (list_cmd == 'f') {
             /* another file */
-            list_source_file = s->listfile_ints[list_cmd_idx * 3 + 0];
+            list_source_file = s->listfile_ints[list_cmd_idx * 5 + 0];
           }
         }
         s = s->next;
-- 
2.43.0

