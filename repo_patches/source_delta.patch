From 0230dcfd882098e33729b2bc7f7bac3c71fe2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 01/14] fix: CmpBlock must compare all 128 bits of two labels

---
 crypto/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.h b/crypto/block.h
index 46df18b..5a557b8 100644
--- a/crypto/block.h
+++ b/crypto/block.h
@@ -68,7 +68,7 @@ typedef __m128i block;
 #define get_LSB(x) (*((unsigned short *)&x)&1)
 #define XorBlock(x,y) _mm_xor_si128((x),(y))
 #define ZeroBlock() _mm_setzero_si128()
-#define CmpBlock(X, Y) (_mm_extract_epi16((_mm_cmpeq_epi64((X), (Y))),0)==0xffff)
+#define CmpBlock(X, Y) (_mm_movemask_epi8(_mm_cmpeq_epi64((X), (Y)))==0xffff)
 #define MakeBlock(X,Y) _mm_set_epi64((__m64)(X), (__m64)(Y))
 #define DoubleBlock(B) _mm_slli_epi64(B,1)
 
-- 
2.43.0


From 4d966a2bb124dad5e06b9e92c8a075a797e94479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 02/14] fix: evaluator must learn public-1 outputs assigned to
 it below the mask's top bit

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..446db5b 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1078,7 +1078,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..2c97a8f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1160,7 +1160,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From a7a42c2970b5f393ce8f6d9b06c2477772f01475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 03/14] fix: clear a public-1 output given to the other party
 in last_clock mode

---
 garbled_circuit/garbled_circuit_low_mem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 2c97a8f..5a0ac86 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1115,6 +1115,8 @@ int GarbleTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       if (i < (uint64_t) BN_num_bits(output_mask_bn)
           && BN_is_bit_set(output_mask_bn, i) == 1) {
         BN_set_bit(output_bn, output_bit_offset + i);
+      } else {
+        BN_clear_bit(output_bn, output_bit_offset + i);
       }
     } else {
       short garble_output_type = get_LSB(output_labels[(i) * 2 + 0]);
@@ -1162,6 +1164,8 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
           || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
+      } else {
+        BN_clear_bit(output_bn, output_bit_offset + i);
       }
     } else {
       short garble_output_type;
-- 
2.43.0


From 42be58f5328c7b622cd7a9f275a7d70f1793f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 04/14] fix: exchange and compare both parties' bits of a
 secret terminate signal

---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..e912451 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -601,7 +601,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -618,8 +618,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From fde893b77859a52479e6d5fccaf5af21369ab342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 05/14] fix: evaluator must not match garbled tables it has not
 received

The table buffer's gids were read uninitialised in the first clock cycle
whenever fewer tables than non-XOR gates arrived, so a stray gid could make
the evaluator take garbage for a gate's table and desynchronise.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 446db5b..4026268 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -479,6 +479,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t j = 0; j < num_of_non_xor; j++) {  // no table received yet
+    garbled_tables[j].gid = (uint32_t)(-1);
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 5a0ac86..b68a75e 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t j = 0; j < num_of_non_xor; j++) {  // no table received yet
+    garbled_tables[j].gid = (uint32_t)(-1);
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From d812231ff70e0f8d4182366510df97d621d43c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 06/14] fix: report a failed garbling or evaluation pass in
 high-memory mode

GarbleBNHighMem and EvaluateBNHighMem dropped the status of the pass, so a
lost connection or table mismatch was answered with SUCCESS.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 4026268..825399e 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From 039553061adf8003a2fff93d5f3e02d267fbc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 07/14] fix: reject hexadecimal block text with anything but
 digits and separators

---
 util/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..52136d8 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -167,6 +167,12 @@ int Str2Block(const string &s, block* v) {
     return FAILURE;
   }
 
+  // stoull alone would accept signs, a 0x prefix and trailing garbage
+  if (v_str.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+    LOG(ERROR) << "Can not parse hex string to 128-bit block: " << v_str << endl;
+    return FAILURE;
+  }
+
   while (v_str.length() < sizeof(block) * 2) {
     v_str.insert(0, "0");
   }
-- 
2.43.0


From 581b5c41753f05d61cef11beaf5f4f8175cd9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 08/14] fix: number of values and bits in the string
 conversions no longer truncated to 8/16 bits

---
 util/util.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 52136d8..eb520da 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -264,8 +264,8 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 
  void parseGCOutputString(vector<int64_t> &output, string output_str, vector<uint16_t> bit_len, uint16_t offset){
 	string bin_output_str = hex2bin(output_str);
-	uint8_t no_of_outputs = output.size();
-	uint16_t len = offset;
+	uint64_t no_of_outputs = output.size();
+	uint64_t len = offset;
 	uint64_t i;
 	for (i = 0; i < no_of_outputs; i++){
 		len += bit_len[i];
@@ -273,7 +273,7 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 	if (len > bin_output_str.length()) bin_output_str.insert(0, len-bin_output_str.length(), '0');
 	else if (len < bin_output_str.length()) bin_output_str = bin_output_str.substr(bin_output_str.length()-len, len);
 	
-	uint16_t cur = 0;
+	uint64_t cur = 0;
 	for (i = 0; i < no_of_outputs; i++){
 		output[i] = bin2dec(bin_output_str.substr(cur, bit_len[i]), true);
 		cur += bit_len[i];
@@ -311,7 +311,7 @@ int64_t bin2dec(string bin, bool s){
 }
 
 string hex2bin(string hex_){
-	uint16_t len = hex_.length();
+	uint64_t len = hex_.length();
 	string bin("");
 	
 	for (uint64_t i = 0; i < len; i++){
@@ -339,7 +339,7 @@ string hex2bin(string hex_){
 }
 
 string bin2hex(string bin){
-	uint16_t len = bin.length();
+	uint64_t len = bin.length();
 	bin.insert(0, 4-len%4, '0');
 	len = bin.length();
 	string hex_("");
-- 
2.43.0


From 64777f1f73e749824a769043ccde592ff50e7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:18 +0000
Subject: [PATCH 09/14] fix: a23 compare treats 32-bit limbs as unsigned

---
 a23/compare/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index 48012fe..c7f5a29 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -26,7 +26,7 @@ static int compare_array(const int *g, const int *e, int *o) {
 static int compare_array(const int *g, const int *e, int *o) {
   int greater = 0;
   for(int i = 0; i < G_SIZE;i++) {
-    greater = (g[i] == e[i])?greater:(g[i] < e[i]);
+    greater = (g[i] == e[i])?greater:((uint)g[i] < (uint)e[i]);
   }
   return greater;
 }
-- 
2.43.0


From 402ad2752eeb8519df57ab36ec0ff5e2cdbd22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:05 +0000
Subject: [PATCH 10/14] fix: a23 merge-sort keeps the middle index across
 recursive calls

---
 a23/merge-sort/merge-sort.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/merge-sort/merge-sort.c b/a23/merge-sort/merge-sort.c
index 5d4a97b..cc2ad89 100644
--- a/a23/merge-sort/merge-sort.c
+++ b/a23/merge-sort/merge-sort.c
@@ -3,10 +3,10 @@
 #define O_SIZE 32 // size of output array
 
 int __attribute__((aligned(256))) b[G_SIZE]; // temporary array for mergesort
-int i, j, k, m;
+int i, j, k;
 void mergesort(int* array, int l, int r) {
   if (r > l) {
-    m = (r + l) / 2;
+    int m = (r + l) / 2; // local: the recursive calls compute their own
     mergesort(array, l, m);
     mergesort(array, m + 1, r);
     for (i = m + 1; i > l; i--)
-- 
2.43.0


From 64cee07bb3e423766695cdd9ffed9331d8a8cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:52 +0000
Subject: [PATCH 11/14] fix: a23 aes S-box temporaries are large enough for the
 bits stored in them

---
 a23/aes/aes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/aes/aes.c b/a23/aes/aes.c
index 54af8d0..ba121a4 100644
--- a/a23/aes/aes.c
+++ b/a23/aes/aes.c
@@ -99,7 +99,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
-- 
2.43.0


From 73d70e2ca0f2bcd9098d03981169a73b2b546d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:42 +0000
Subject: [PATCH 12/14] fix: OT extension masks all bits when the width is not
 a multiple of 8

---
 crypto/OT_extension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..d52c32a 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -82,7 +82,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
 
-  BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
+  BN_CHECK(BN_bin2bn(md_value, (bits + 7) / 8, r));
 
   return SUCCESS;
 }
-- 
2.43.0


From 3faa9662078141156729f86474fede51a4c7acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:27 +0000
Subject: [PATCH 13/14] fix: assignments of a netlist may be in any order

---
 scd/parse_netlist.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 85c3489..07776d6 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -543,18 +543,29 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
-  for (uint64_t i = 0; i < read_circuit_string.assignment_list_string.size();
-      i++) {
-    const auto assign_pair = read_circuit_string.assignment_list_string[i];
-    if (wire_name_table.count(assign_pair.first)) {
-      wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
-    } else if (wire_name_table.count(assign_pair.second)) {
-      wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
-    } else {
-      LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-          << assign_pair.second
-          << " which were mentioned in an assignment statement" << endl;
+  // An assignment can refer to a wire that a later one defines.
+  vector<pair<string, string>> pending =
+      read_circuit_string.assignment_list_string;
+  while (!pending.empty()) {
+    vector<pair<string, string>> unresolved;
+    for (const auto& assign_pair : pending) {
+      if (wire_name_table.count(assign_pair.first)) {
+        wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
+      } else if (wire_name_table.count(assign_pair.second)) {
+        wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
+      } else {
+        unresolved.push_back(assign_pair);
+      }
+    }
+    if (unresolved.size() == pending.size()) {
+      for (const auto& assign_pair : unresolved) {
+        LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
+            << assign_pair.second
+            << " which were mentioned in an assignment statement" << endl;
+      }
+      break;
     }
+    pending = unresolved;
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


From 63729a2e1aaa99aa65086b76525b8b529c7c80dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:54 +0000
Subject: [PATCH 14/14] fix: constant outputs of a netlist get a gate of their
 own

---
 scd/parse_netlist.cpp | 37 +++++++++++++++++++++++++++++++++++++
 scd/scheduling.cpp    |  3 +++
 2 files changed, 40 insertions(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 07776d6..8d34184 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -499,6 +499,21 @@ int ParseBrisNetlist(const string &filename,
   return SUCCESS;
 }
 
+/**
+ * @brief A wire carrying a constant: outputs and terminate have to be wires.
+ */
+int64_t AddConstantGate(int64_t constant, int64_t* wire_index,
+                        ReadCircuit* read_circuit) {
+  ReadGate g;
+  g.type = XORGATE;
+  g.input[0] = constant;
+  g.input[1] = CONST_ZERO;
+  g.output = (*wire_index)++;
+  read_circuit->gate_list.push_back(g);
+  read_circuit->gate_size++;
+  return g.output;
+}
+
 int IdAssignment(const ReadCircuitString& read_circuit_string,
                  ReadCircuit* read_circuit) {
   read_circuit->p_init_size = read_circuit_string.p_init_size;
@@ -644,5 +659,27 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
     read_circuit->terminate_id = wire_name_table["terminate"];
   }
 
+  map<int64_t, int64_t> constant_wire;
+  for (int64_t constant : { CONST_ZERO, CONST_ONE }) {
+    bool is_used = read_circuit_string.has_terminate
+        && (int64_t) read_circuit->terminate_id == constant;
+    for (int64_t output : read_circuit->output_list) {
+      is_used = is_used || output == constant;
+    }
+    if (is_used) {
+      constant_wire[constant] = AddConstantGate(constant, &wire_index,
+                                                read_circuit);
+    }
+  }
+  for (uint64_t& output : read_circuit->output_list) {
+    if (constant_wire.count(output)) {
+      output = constant_wire[output];
+    }
+  }
+  if (read_circuit_string.has_terminate
+      && constant_wire.count(read_circuit->terminate_id)) {
+    read_circuit->terminate_id = constant_wire[read_circuit->terminate_id];
+  }
+
   return SUCCESS;
 }
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..6c72430 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -515,6 +515,9 @@ int WriteMapping(const ReadCircuitString& read_circuit_string,
 
   for (int64_t i = 0; i < (int64_t) read_circuit.gate_size; i++) {
     int64_t gid = read_circuit.task_schedule[i];
+    if (gid >= (int64_t) read_circuit_string.gate_list_string.size()) {
+      continue;  // gates of constant outputs are not in the netlist.
+    }
     f << read_circuit_string.gate_list_string[gid].output << " "
         << read_circuit.gate_list[gid].output << endl;
   }
-- 
2.43.0

