From 39320d569505c4a8da29829486691e5a37fa38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 01/59] fix: room for the terminator of a 128 byte plain text
 VIF

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..c6a85bb 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -153,7 +153,7 @@ typedef struct _mbus_value_information_block {
         unsigned char vife[MBUS_VALUE_INFO_BLOCK_VIFE_SIZE];
         size_t  nvife;
 
-        unsigned char custom_vif[MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE];
+        unsigned char custom_vif[MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE + 1]; // text + terminating 0
 
 } mbus_value_information_block;
 
-- 
2.43.0


From 5e1df96bf1b32ca91658a23546fda287daabb4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 02/59] fix: record data buffer must hold the manufacturer
 specific tail of a full frame

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index c6a85bb..d4a6368 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[MBUS_FRAME_DATA_LENGTH];
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From c384ec698d9bef613736f9364781542828c4ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 03/59] fix: do not leave fields of an earlier message in a
 re-used frame

---
 mbus/mbus-protocol.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..8f5cd9a 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3593,6 +3593,19 @@ mbus_parse(mbus_frame *frame, unsigned char *data, size_t data_size)
     {
         frame->next = NULL;
 
+        // forget the message that was parsed into this frame before, the
+        // shorter frame types do not set all the fields
+        frame->start1  = 0;
+        frame->length1 = 0;
+        frame->length2 = 0;
+        frame->start2  = 0;
+        frame->control = 0;
+        frame->address = 0;
+        frame->control_information = 0;
+        frame->checksum  = 0;
+        frame->stop      = 0;
+        frame->data_size = 0;
+
         if (parse_debug)
             printf("%s: Attempting to parse binary data [size = %zu]\n", __PRETTY_FUNCTION__, data_size);
 
-- 
2.43.0


From e0cd0a78d3a1093767c510ac64788f4ec03a477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 04/59] fix: mbus_frame_verify reports a valid ACK frame as
 valid

---
 mbus/mbus-protocol.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 8f5cd9a..fdfbe4f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,14 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                if(frame->start1 != MBUS_FRAME_ACK_START)
+                {
+                    snprintf(error_str, sizeof(error_str), "No frame start");
+
+                    return -1;
+                }
+
+                return 0;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From e46a911045c2eb4f8e3afac3d53066b07f66e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 05/59] fix: do not read beyond the frame data when a record is
 cut short

---
 mbus/mbus-protocol.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index fdfbe4f..1cd0285 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3904,6 +3904,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     return -1;
                 }
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 dife = frame->data[i+1];
                 record->drh.dib.dife[record->drh.dib.ndife] = dife;
 
@@ -3912,7 +3919,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3928,6 +3935,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3951,6 +3965,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3966,6 +3987,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                         return -1;
                     }
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     vife = frame->data[i+1];
                     record->drh.vib.vife[record->drh.vib.nvife] = vife;
 
@@ -3985,6 +4013,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From c452243d345453d213d6c0ccb1d9dff7a5bf45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 06/59] fix: variable length BCD data has two digits per byte,
 not two bytes per digit pair

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 1cd0285..471df63 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4023,9 +4023,9 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-                    record->data_len = (frame->data[i] - 0xC0) * 2;
+                    record->data_len = frame->data[i] - 0xC0; // two digits per byte
                 else if(frame->data[i] >= 0xD0 && frame->data[i] <= 0xD9)
-                    record->data_len = (frame->data[i] - 0xD0) * 2;
+                    record->data_len = frame->data[i] - 0xD0; // two digits per byte
                 else if(frame->data[i] >= 0xE0 && frame->data[i] <= 0xEF)
                     record->data_len = frame->data[i] - 0xE0;
                 else if(frame->data[i] >= 0xF0 && frame->data[i] <= 0xF4)
-- 
2.43.0


From a5e31ece649a8eb5d54e78a978b49ca1cacd2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 07/59] fix: storage numbers of more than 31 bits overflow an
 int shift

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 471df63..aa172e9 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3472,7 +3472,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long) (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 5ca8ea44b3bbd728dd61a02bd3f92043c1a8aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 08/59] fix: mbus_frame_xml neither leaks nor re-uses the
 record list when a telegram cannot be decoded

---
 mbus/mbus-protocol.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index aa172e9..4bb5d18 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4999,9 +4999,10 @@ mbus_frame_xml(mbus_frame *frame)
     {
         memset((void *)&frame_data, 0, sizeof(mbus_frame_data));
 
-        if (mbus_frame_data_parse(frame, &frame_data) == -1)
+        if (mbus_frame_data_parse(frame, &frame_data) != 0)
         {
             mbus_error_str_set("M-bus data parse error.");
+            mbus_data_record_free(frame_data.data_var.record);
             return NULL;
         }
 
@@ -5076,15 +5077,19 @@ mbus_frame_xml(mbus_frame *frame)
             if (frame_data.data_var.record)
             {
                 mbus_data_record_free(frame_data.data_var.record);
+                frame_data.data_var.record = NULL;
             }
 
             frame_cnt++;
 
             for (iter = frame->next; iter; iter = iter->next, frame_cnt++)
             {
-                if (mbus_frame_data_parse(iter, &frame_data) == -1)
+                if (mbus_frame_data_parse(iter, &frame_data) != 0 ||
+                    frame_data.type != MBUS_DATA_TYPE_VARIABLE)
                 {
                     mbus_error_str_set("M-bus variable data parse error.");
+                    mbus_data_record_free(frame_data.data_var.record);
+                    free(buff);
                     return NULL;
                 }
 
@@ -5115,6 +5120,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (frame_data.data_var.record)
                 {
                     mbus_data_record_free(frame_data.data_var.record);
+                    frame_data.data_var.record = NULL;
                 }
             }
 
-- 
2.43.0


From 204130d12fac07b292cdc9a9a6969c161cbd5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 09/59] fix: XML buffers must hold a record with long, fully
 escaped texts

---
 mbus/mbus-protocol-aux.c | 4 ++--
 mbus/mbus-protocol.c     | 8 ++++----
 mbus/mbus-protocol.h     | 2 ++
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..772bbb7 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1393,7 +1393,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
     mbus_data_record *record;
     mbus_record *norm_record;
     char *buff = NULL, *new_buff = NULL;
-    char str_encoded[768] = "";
+    char str_encoded[MBUS_XML_TEXT_SIZE] = "";
     size_t len = 0, buff_size = 8192;
     size_t i;
 
@@ -1414,7 +1414,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 4bb5d18..89c150b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4720,7 +4720,7 @@ char *
 mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header)
 {
     static char buff[8192];
-    char str_encoded[768];
+    char str_encoded[MBUS_XML_TEXT_SIZE];
     size_t len = 0;
     struct tm * timeinfo;
     char timestamp[22];
@@ -4819,7 +4819,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -5054,7 +5054,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5097,7 +5097,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index d4a6368..c88f033 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -522,6 +522,8 @@ unsigned int mbus_manufacturer_id(char *manufacturer);
 // Since libmbus writes some special characters (ASCII > 0x7F) into the XML output (e.g. �C for centigrade == ASCII 0xB0)
 // it is useful to attach the appropriate code page for postprocessing.
 #define MBUS_XML_PROCESSING_INSTRUCTION         "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"
+#define MBUS_XML_TEXT_SIZE   1536  // longest text of a record with each character escaped
+#define MBUS_XML_RECORD_SIZE 4096  // upper bound of one data record in XML
 
 //
 // Event callback functions
-- 
2.43.0


From 3a1761d1a0b85c641fb7b1651f30ca781b2d1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 10/59] fix: mbus_str_xml_encode writes a byte into a buffer of
 size zero

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 89c150b..bb0f534 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4623,7 +4623,7 @@ mbus_str_xml_encode(unsigned char *dst, const unsigned char *src, size_t max_len
     i = 0;
     len = 0;
 
-    if (dst == NULL)
+    if (dst == NULL || max_len == 0)
     {
         return -1;
     }
-- 
2.43.0


From 0ecb3404ef4174e0e8fe71fbc15e4f654b4ae3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 11/59] fix: exponent of the cumulation count max power VIFE
 0x79

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 772bbb7..f36480d 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From d2444220052e4c8128b49030bf886daf04540b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 12/59] fix: FB-extension energy VIFs 08 and 09 are in J

---
 mbus/mbus-protocol-aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f36480d..d3e8531 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
-- 
2.43.0


From 37db922a2c3e9d39406713abebdbf328e00b9f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 13/59] fix: FB-extension power VIFs 30 and 31 are in J/h

---
 mbus/mbus-protocol-aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index d3e8531..5be9936 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
-- 
2.43.0


From 49dba1af9a8f9014aba7d92c55562658de058648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 14/59] fix: powers of ten of the fixed format power units

---
 mbus/mbus-protocol-aux.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 5be9936..8a2c3e5 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,14 +692,14 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
 
     { 0x1D, 1.0e3, "J/h", "Energy" },
     { 0x1E, 1.0e4, "J/h", "Energy" },
-- 
2.43.0


From 14ed81893769f7be02133cf7b5c8bee46aae65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 15/59] fix: fixed format volume flow units 2F and 30

---
 mbus/mbus-protocol-aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 8a2c3e5..0a9ee7a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From 76132d22906d623cc59625496876d2366628708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 16/59] fix: fixed format units in J/h measure power, not
 energy

---
 mbus/mbus-protocol-aux.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 0a9ee7a..56c5c25 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -701,15 +701,15 @@ mbus_variable_vif fixed_table[] = {
     { 0x1B, 1.0e7, "W", "Power" },
     { 0x1C, 1.0e8, "W", "Power" },
 
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
-- 
2.43.0


From d5b7d9193ef8f8952a0e24dd873b45a6d1e4c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 17/59] fix: fixed format unit codes 0D and 0E were exchanged

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index bb0f534..c8d17b3 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1562,10 +1562,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From d6169581ae9da4ee5f531e4461348d962aac5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 18/59] fix: mbus_frame_print handles the longest frame and
 every pack failure

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c8d17b3..5faaada 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4372,7 +4372,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[MBUS_FRAME_LONG_BASE_SIZE + MBUS_FRAME_DATA_LENGTH];
     int len, i;
 
     if (frame == NULL)
@@ -4380,7 +4380,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
-- 
2.43.0


From 075a8e988b7c2dfce3c646b894fe85938f129d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 19/59] fix: BCD encoding is least significant byte first, like
 decoding

---
 mbus/mbus-protocol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 5faaada..cb38e78 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -465,23 +465,23 @@ mbus_frame_verify(mbus_frame *frame)
 int
 mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
 {
-    int v0, v1, v2, x1, x2;
+    unsigned int v0, v1, v2, x1, x2;
     size_t i;
 
     if (bcd_data && bcd_data_size)
     {
-        v2 = abs(value);
+        v2 = (value < 0) ? 0u - (unsigned int) value : (unsigned int) value;
 
         for (i = 0; i < bcd_data_size; i++)
         {
             v0 = v2;
-            v1 = (int)(v0 / 10);
-            v2 = (int)(v1 / 10);
+            v1 = v0 / 10;
+            v2 = v1 / 10;
 
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
 
-            bcd_data[bcd_data_size-1-i] = (x2 << 4) | x1;
+            bcd_data[i] = (x2 << 4) | x1;
         }
 
         if (value < 0)
-- 
2.43.0


From c0f725cfe6dbc39c552ae61dd3bf9c3cc1a4e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 20/59] fix: integer encoding of more than four bytes extends
 the sign

---
 mbus/mbus-protocol.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index cb38e78..beb1d5b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -671,13 +671,14 @@ mbus_data_long_long_decode(unsigned char *int_data, size_t int_data_size, long l
 int
 mbus_data_int_encode(unsigned char *int_data, size_t int_data_size, int value)
 {
-    int i;
+    size_t i;
 
     if (int_data)
     {
         for (i = 0; i < int_data_size; i++)
         {
-            int_data[i] = (value>>(i*8)) & 0xFF;
+            // bytes beyond the size of an int repeat the sign
+            int_data[i] = (((long long) value) >> ((i < sizeof(long long) ? i : sizeof(long long) - 1) * 8)) & 0xFF;
         }
 
         return 0;
-- 
2.43.0


From 1dfa2f2d819cd11a1567f9974a6ce5b6a36a4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 21/59] fix: select telegram keeps hexadecimal digits of the
 identification number

---
 mbus/mbus-protocol.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index beb1d5b..dc79682 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5292,7 +5292,7 @@ int
 mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
 {
     int val, i, j, k;
-    char tmp[16];
+    char tmp[16], digit[2] = "";
 
     if (frame == NULL || address == NULL)
     {
@@ -5343,7 +5343,8 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            digit[0] = address[i];
+            frame->data[j] |= (0x0F & strtol(digit, NULL, 16)) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From 68a1990848f89fcb52afd316267c53528d6ad77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 22/59] fix: mbus_frame_get_secondary_address(NULL) reads an
 uninitialised pointer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index dc79682..b580e8f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5246,7 +5246,7 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
+    mbus_frame_data *data = NULL;
     unsigned long id;
 
     if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
-- 
2.43.0


From 4d48407a97591ddd29d359252d5bbc501884780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 23/59] fix: mbus_hex2bin accepted signs and single digits as
 bytes

---
 mbus/mbus-protocol-aux.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 56c5c25..7b72798 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2544,7 +2544,7 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
 {
     size_t i, result = 0;
     unsigned long val;
-    unsigned char *ptr, *end, buf[3];
+    unsigned char buf[3];
 
     if (!src || !dst)
     {
@@ -2563,14 +2563,12 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         buf[0] = src[i];
         buf[1] = src[++i];
 
-        end = buf;
-        ptr = end;
-        val = strtoul(ptr, (char **)&end, 16);
-
-        // abort at non hex value
-        if (ptr == end)
+        // abort at anything but two hex digits
+        if (!isxdigit(buf[0]) || !isxdigit(buf[1]))
             break;
 
+        val = strtoul((char *) buf, NULL, 16);
+
         // abort at end of buffer
         if (result >= dst_len)
             break;
-- 
2.43.0


From 954ecd9a52e85a55077a8bbac55bdc1020c79d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 24/59] fix: mbus_frame_internal_pack keeps plain text VIFs,
 manufacturer data and the frame's bounds

---
 mbus/mbus-protocol.c | 60 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index b580e8f..786ed94 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4253,7 +4253,7 @@ int
 mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
 {
     mbus_data_record *record;
-    int j;
+    size_t j, size, custom_len;
 
     if (frame == NULL || frame_data == NULL)
         return -1;
@@ -4315,22 +4315,60 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                const int special = record->drh.dib.dif == MBUS_DIB_DIF_MANUFACTURER_SPECIFIC ||
+                                    record->drh.dib.dif == MBUS_DIB_DIF_MORE_RECORDS_FOLLOW;
+                const int custom = !special && (record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C;
+
+                // refuse records that do not fit in the frame
+                custom_len = custom ? strlen((char *) record->drh.vib.custom_vif) : 0;
+                size = 1 + record->data_len;
+                if (!special)
+                {
+                    size += record->drh.dib.ndife + 1 + record->drh.vib.nvife;
+                }
+                if (custom)
+                {
+                    size += 1 + custom_len;
+                }
+
+                if (frame->data_size + size > MBUS_FRAME_DATA_LENGTH)
+                {
+                    snprintf(error_str, sizeof(error_str), "Data records do not fit in the frame.");
+                    return -3;
+                }
+
                 // pack DIF
                 if (parse_debug)
                     printf("%s: packing DIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
                 frame->data[frame->data_size++] = record->drh.dib.dif;
-                for (j = 0; j < record->drh.dib.ndife; j++)
-                {
-                    frame->data[frame->data_size++] = record->drh.dib.dife[j];
-                }
 
-                // pack VIF
-                if (parse_debug)
-                    printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-                frame->data[frame->data_size++] = record->drh.vib.vif;
-                for (j = 0; j < record->drh.vib.nvife; j++)
+                // manufacturer specific data follows the DIF immediately
+                if (!special)
                 {
-                    frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    for (j = 0; j < record->drh.dib.ndife; j++)
+                    {
+                        frame->data[frame->data_size++] = record->drh.dib.dife[j];
+                    }
+
+                    // pack VIF
+                    if (parse_debug)
+                        printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
+                    frame->data[frame->data_size++] = record->drh.vib.vif;
+
+                    // plain text VIF: length and text in transmission (reversed) order
+                    if (custom)
+                    {
+                        frame->data[frame->data_size++] = custom_len;
+                        for (j = custom_len; j > 0; j--)
+                        {
+                            frame->data[frame->data_size++] = record->drh.vib.custom_vif[j - 1];
+                        }
+                    }
+
+                    for (j = 0; j < record->drh.vib.nvife; j++)
+                    {
+                        frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    }
                 }
 
                 // pack data
-- 
2.43.0


From c69d1c687b4c99b1fc2622b5171f947cca5d5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 25/59] fix: refuse to pack a frame whose data size exceeds its
 data

---
 mbus/mbus-protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 786ed94..a076a5d 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -291,6 +291,12 @@ mbus_frame_calc_length(mbus_frame *frame)
 {
     if (frame)
     {
+        if (frame->type == MBUS_FRAME_TYPE_LONG && frame->data_size > MBUS_FRAME_DATA_LENGTH)
+        {
+            snprintf(error_str, sizeof(error_str), "Data size %zu exceeds the frame.", frame->data_size);
+            return -1;
+        }
+
         frame->length1 = frame->length2 = calc_length(frame);
     }
 
-- 
2.43.0


From 1669e092d7d684f994d442b1caa3649492ff1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 26/59] fix: mbus_data_bcd_decode_hex overflows a signed shift
 for eight bytes

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a076a5d..ef068ce 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -546,7 +546,7 @@ mbus_data_bcd_decode(unsigned char *bcd_data, size_t bcd_data_size)
 long long
 mbus_data_bcd_decode_hex(unsigned char *bcd_data, size_t bcd_data_size)
 {
-    long long val = 0;
+    unsigned long long val = 0;
     size_t i;
 
     if (bcd_data)
-- 
2.43.0


From 33e559a66d2f0b2edde23823551cea55f773788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 27/59] fix: mbus_sendrecv_request frees records twice or leaks
 them

The record list of one telegram stayed referenced after it was freed, so a
following fixed or error telegram freed it again, and the records parsed
before a parse error were never released.
---
 mbus/mbus-protocol-aux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 7b72798..2db319c 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2116,9 +2116,10 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         // We need to parse the data in the received frame to be able to tell
         // if more records are available or not.
         //
-        if (mbus_frame_data_parse(next_frame, &reply_data) == -1)
+        if (mbus_frame_data_parse(next_frame, &reply_data) != 0)
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
+            mbus_data_record_free(reply_data.data_var.record);
             retval = 1;
             break;
         }
@@ -2172,6 +2173,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From 5973967b1a33dcd26f2472761767ad2d590236a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 28/59] fix: mbus_sendrecv_request stops after one frame when
 max_frames is 0

The interface documents 0 as "no limit".
---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 2db319c..51e39ec 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2140,7 +2140,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames <= 0) || (frame_count < max_frames))) // only readout max_frames
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From ba80bc674403d07aff172ae731c8efd207539ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 29/59] fix: handles that never connected use an indeterminate
 descriptor

The descriptor of a new handle and the serial settings were uninitialised,
and a failed TCP connect left the number of a closed descriptor behind, so a
later disconnect closed (and I/O used) a descriptor the handle does not own.
---
 mbus/mbus-protocol-aux.c | 4 +++-
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 51e39ec..519af29 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1515,7 +1515,7 @@ mbus_context_serial(const char *device)
         return NULL;
     }
 
-    if ((serial_data = (mbus_serial_data *)malloc(sizeof(mbus_serial_data))) == NULL)
+    if ((serial_data = (mbus_serial_data *)calloc(1, sizeof(mbus_serial_data))) == NULL)
     {
         snprintf(error_str, sizeof(error_str), "%s: failed to allocate memory for handle\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
@@ -1526,6 +1526,7 @@ mbus_context_serial(const char *device)
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 1;
+    handle->fd = -1;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = serial_data;
     handle->open = mbus_serial_connect;
@@ -1574,6 +1575,7 @@ mbus_context_tcp(const char *host, uint16_t port)
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 0;
+    handle->fd = -1;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = tcp_data;
     handle->open = mbus_tcp_connect;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..e7e8497 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From dfeb2b8952b716090eaa8f6eec0aea1a48062783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 30/59] fix: mbus_parse_variable_record leaks a text value with
 an unknown unit

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 519af29..19a478f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1362,6 +1362,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From 5eefef09509ba5bcab6710fbc27938f259ae12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 31/59] fix: mbus_scan_2nd_address_range hides errors of nested
 scans and leaks its mask

A probe error below the first wildcard was reported as a completed scan.
---
 mbus/mbus-protocol-aux.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 19a478f..3eabbb9 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2489,7 +2489,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
+            {
+                free(mask);
+                return -1;
+            }
         }
         else
         {
@@ -2521,7 +2525,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2530,6 +2538,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From dedcebbe93c1113293db816eaaa7433ac2209ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 32/59] fix: unit normalisation reports success without unit or
 quantity when memory runs out

---
 mbus/mbus-protocol-aux.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 3eabbb9..286feac 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -813,6 +813,15 @@ int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, do
                 *unit_out = strdup(fixed_table[i].unit);
                 *value_out = ((double) (medium_value)) * fixed_table[i].exponent;
                 *quantity_out = strdup(fixed_table[i].quantity);
+                if (*unit_out == NULL || *quantity_out == NULL)
+                {
+                    MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                    free(*unit_out);
+                    free(*quantity_out);
+                    *unit_out = NULL;
+                    *quantity_out = NULL;
+                    return -1;
+                }
                 return 0;
             }
         }
@@ -1063,6 +1072,15 @@ mbus_vif_unit_normalize(int vif, double value, char **unit_out, double *value_ou
             *unit_out = strdup(vif_table[i].unit);
             *value_out = value * vif_table[i].exponent;
             *quantity_out = strdup(vif_table[i].quantity);
+            if (*unit_out == NULL || *quantity_out == NULL)
+            {
+                MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                free(*unit_out);
+                free(*quantity_out);
+                *unit_out = NULL;
+                *quantity_out = NULL;
+                return -1;
+            }
             return 0;
         }
     }
@@ -1125,6 +1143,15 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
             *unit_out = strdup("-");
             *quantity_out = strdup(vib->custom_vif);
             *value_out = value;
+            if (*unit_out == NULL || *quantity_out == NULL)
+            {
+                MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                free(*unit_out);
+                free(*quantity_out);
+                *unit_out = NULL;
+                *quantity_out = NULL;
+                return -1;
+            }
         }
         else
         {
-- 
2.43.0


From 1019a9b029cff1ba403850d0eb3b1c7ce648b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 33/59] fix: mbus_send_frame reports success without a handle

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 286feac..b2fba39 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1769,7 +1769,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From 80342181cdb1cf1302595228908fff7bfa487d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 34/59] fix: frames that cannot be packed are written with a
 negative length

mbus_frame_pack has failure results other than -1.
---
 mbus/mbus-serial.c | 2 +-
 mbus/mbus-tcp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index e7e8497..c6473c4 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -160,7 +160,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From 852589857d28401b7de82717d48597473121dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 35/59] fix: sending to a TCP gateway that has gone away kills
 the process

The write raised SIGPIPE instead of reporting the failure.
---
 mbus/mbus-tcp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index c6473c4..69ca694 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -24,6 +24,10 @@
 #include "mbus-tcp.h"
 
 #define PACKET_BUFF_SIZE 2048
+
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
 #define MAX_PORT_SIZE 6 // Size of port number + NULL char
 
 static int tcp_timeout_sec = 4;
@@ -167,7 +171,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((ret = write(handle->fd, buff, len)) == len)
+    if ((ret = send(handle->fd, buff, len, MSG_NOSIGNAL)) == len)
     {
         //
         // call the send event function, if the callback function is registered
-- 
2.43.0


From c913e4a8854fd848cd4daedf14cf9827e44e757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 36/59] fix: echo cancellation acts on the previous content of
 the frame when nothing was received

After a failed receive the direction of whatever the frame object held before
decided on a second receive, which replaced the failure.
---
 mbus/mbus-protocol-aux.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b2fba39..534a664 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1721,16 +1721,19 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    if (result == MBUS_RECV_RESULT_OK)
     {
-        case MBUS_CONTROL_MASK_DIR_M2S:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
-        case MBUS_CONTROL_MASK_DIR_S2M:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
+        switch (mbus_frame_direction(frame))
+        {
+            case MBUS_CONTROL_MASK_DIR_M2S:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+            case MBUS_CONTROL_MASK_DIR_S2M:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+        }
     }
 
     if (frame != NULL)
-- 
2.43.0


From 527347885ece277eadb2bc78716f688d5a033ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 37/59] fix: a lost connection is reported as an unused
 secondary address

Selecting and probing treated receive errors and resets like silence.
---
 mbus/mbus-protocol-aux.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 534a664..f9a44bf 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2296,6 +2296,13 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive reply to selection frame.\n",
+                   __PRETTY_FUNCTION__);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2359,6 +2366,13 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive reply from selected secondary device [mask %s].\n",
+                           __PRETTY_FUNCTION__, mask);
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From c5bdbf54f19daa32afd69c76000085faa0a0488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 38/59] fix: mbus_serial_connect reports success when the port
 cannot be configured

---
 mbus/mbus-serial.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 64b662e..4061dcf 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -90,7 +90,13 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    tcsetattr(handle->fd, TCSANOW, term);
+    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    {
+        fprintf(stderr, "%s: failed to configure tty.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 9cd8f05b047a48b3a29652e3fcdd966473cae60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 39/59] fix: scan finds a device whose identification number is
 given in full

A mask such as 12345678FFFFFFFF (identification number known, manufacturer,
version and medium left open) was never probed itself: the scan enumerated
the digits of the first manufacturer nibble instead, and a device matches
these fields only byte by byte, so the device was not found.  Probe the mask
when its last identification digit is reached.
---
 mbus/mbus-protocol-aux.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f9a44bf..71806fc 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2530,7 +2530,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
     }
     else
     {
-        if (pos < 15)
+        if (pos < 15 && pos != 7)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
             if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
@@ -2541,14 +2541,16 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         }
         else
         {
-            // .. except if we're at the last pos (==15) and this isn't a wildcard we still need to send the probe
+            // .. except if we're at the last pos (==15), or at the last digit of the
+            // identification number (==7), and this isn't a wildcard: then nothing has
+            // enumerated up to here and we still need to send the probe
             i_start = (int)(mask[pos] - '0');
             i_end   = (int)(mask[pos] - '0');
         }
     }
 
-    // skip the scanning if we're returning from the (pos < 15) case above
-    if (mask[pos] == 'f' || mask[pos] == 'F' || pos == 15)
+    // skip the scanning if we're returning from the recursive case above
+    if (mask[pos] == 'f' || mask[pos] == 'F' || pos == 7 || pos == 15)
     {
         for (i = i_start; i <= i_end; i++)
         {
-- 
2.43.0


From 9d8b9e297e4105e15cf490554fdc95facedf8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 40/59] fix: mbus_tcp_connect fails when the time-out cannot be
 set

Without SO_RCVTIMEO a silent peer blocks every receive forever.
---
 mbus/mbus-tcp.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index 69ca694..aa1acb3 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -98,8 +98,15 @@ mbus_tcp_connect(mbus_handle *handle)
     // Set a timeout
     time_out.tv_sec  = tcp_timeout_sec;   // seconds
     time_out.tv_usec = tcp_timeout_usec;  // microseconds
-    setsockopt(handle->fd, SOL_SOCKET, SO_SNDTIMEO, &time_out, sizeof(time_out));
-    setsockopt(handle->fd, SOL_SOCKET, SO_RCVTIMEO, &time_out, sizeof(time_out));
+    if (setsockopt(handle->fd, SOL_SOCKET, SO_SNDTIMEO, &time_out, sizeof(time_out)) == -1 ||
+        setsockopt(handle->fd, SOL_SOCKET, SO_RCVTIMEO, &time_out, sizeof(time_out)) == -1)
+    {
+        snprintf(error_str, sizeof(error_str), "%s: Failed to set the timeout of the connection to %s:%s", __PRETTY_FUNCTION__, host, port);
+        mbus_error_str_set(error_str);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From d55af357da79086e902cd4b45cfb870025ac2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 41/59] fix: mbus-serial-select-secondary reports a device only
 if exactly one answered

The reply was examined uninitialised after a transport error, a second
acknowledge was taken for the data reply, an unknown reply was a success
and the baud rate was printed as the address.
---
 bin/mbus-serial-select-secondary.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 4c1066b..f82fbe0 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -80,22 +80,38 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
+        return 1;
+    }
+
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply to selection frame: %s\n", mbus_error_str());
         return 1;
     }
 
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
+        char *found;
+
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
+        {
+            fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device.\n", addr);
+            return 1;
+        }
+
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
         {
             fprintf(stderr,"Failed to send request to selected secondary device: %s\n", mbus_error_str());
@@ -108,16 +124,20 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if ((found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
-            printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[2], mbus_frame_get_secondary_address(&reply));
+            fprintf(stderr,"Unknown reply from selected secondary device: %s\n", mbus_error_str());
+            return 1;
         }
+
+        printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
+               addr, found);
     }
     else
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        return 1;
     }
 
     free(addr);
-- 
2.43.0


From ea7779e92365f3a54435f7bbe0a367bbc520a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 42/59] fix: mbus-tcp-select-secondary reports a device only if
 exactly one answered

The reply was examined uninitialised after a transport error, a second
acknowledge was taken for the data reply, an unknown reply was a success
and the baud rate was printed as the address.
---
 bin/mbus-tcp-select-secondary.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 92605c6..936bd42 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -71,22 +71,38 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[3], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[3], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
+        return 1;
+    }
+
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply to selection frame: %s\n", mbus_error_str());
         return 1;
     }
 
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
+        char *found;
+
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
+        {
+            fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device.\n", addr);
+            return 1;
+        }
+
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
         {
             fprintf(stderr,"Failed to send request to selected secondary device: %s\n", mbus_error_str());
@@ -99,16 +115,20 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if ((found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
-            printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[3], mbus_frame_get_secondary_address(&reply));
+            fprintf(stderr,"Unknown reply from selected secondary device: %s\n", mbus_error_str());
+            return 1;
         }
+
+        printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
+               addr, found);
     }
     else
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        return 1;
     }
 
     free(addr);
-- 
2.43.0


From 3fd94b356f3ad2b9db2be83b6047b334e6713514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 43/59] fix: mbus-serial-switch-baudrate fails when the device
 does not acknowledge

After a transport error the reply was examined uninitialised, and an
unknown reply was reported as success.
---
 bin/mbus-serial-switch-baudrate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 52a841f..4e499e3 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -72,6 +72,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -79,10 +80,13 @@ main(int argc, char **argv)
         fprintf(stderr,"No reply from device\n");
         return 1;
     }
-    else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+    else if (ret != MBUS_RECV_RESULT_OK || mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
-- 
2.43.0


From 2703849b8916c934a2ecefca37cc2afe82abc2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 44/59] fix: mbus-tcp-application-reset fails when the device
 does not acknowledge

After a transport error the reply was examined uninitialised, and an
unknown reply was reported as success.
---
 bin/mbus-tcp-application-reset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 54ca46c..d033bd5 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -135,6 +135,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -144,10 +145,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
-    else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+    else if (ret != MBUS_RECV_RESULT_OK || mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
-- 
2.43.0


From af8204965223ff8e29f8f0b424f0146697e24f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 45/59] fix: mbus-serial-set-address fails when the device does
 not acknowledge

An unknown or broken reply was reported as success.
---
 bin/mbus-serial-set-address.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 2ec493c..6cb2404 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -213,10 +213,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
-    else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+    else if (ret != MBUS_RECV_RESULT_OK || mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr, "Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
-- 
2.43.0


From f2c7adffd532faf7dca5e8df44e0ffbd8e321c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 46/59] fix: mbus-tcp-scan-secondary fails when the scan could
 not be completed

---
 bin/mbus-tcp-scan-secondary.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-tcp-scan-secondary.c b/bin/mbus-tcp-scan-secondary.c
index dd6131a..89f502d 100755
--- a/bin/mbus-tcp-scan-secondary.c
+++ b/bin/mbus-tcp-scan-secondary.c
@@ -25,6 +25,7 @@ main(int argc, char **argv)
     long port;
     mbus_handle *handle = NULL;
     mbus_frame *frame = NULL, reply;
+    int ret;
 
     memset((void *)&reply, 0, sizeof(mbus_frame));
 
@@ -101,7 +102,7 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    ret = mbus_scan_2nd_address_range(handle, 0, addr_mask);
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
@@ -110,6 +111,6 @@ main(int argc, char **argv)
 
     free(addr_mask);
 
-    return 0;
+    return (ret == 0) ? 0 : 1;
 }
 
-- 
2.43.0


From 0688e38b26b04f9adbe15b2512511087829a9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 47/59] fix: mbus-serial-scan-secondary fails when the scan
 could not be completed

---
 bin/mbus-serial-scan-secondary.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index c1ad32d..0ea0430 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -55,6 +55,7 @@ main(int argc, char **argv)
     long baudrate = 9600;
     mbus_handle *handle = NULL;
     mbus_frame *frame = NULL, reply;
+    int ret;
 
     memset((void *)&reply, 0, sizeof(mbus_frame));
 
@@ -172,7 +173,7 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    ret = mbus_scan_2nd_address_range(handle, 0, addr_mask);
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
@@ -180,6 +181,6 @@ main(int argc, char **argv)
 
     free(addr_mask);
 
-    return 0;
+    return (ret == 0) ? 0 : 1;
 }
 
-- 
2.43.0


From 549da01d189f09462ca4f72a38a6d5860bd94f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 48/59] fix: mbus-tcp-scan took a stale reply for a device
 after a failed ping

---
 bin/mbus-tcp-scan.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 3d96194..525a5a0 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -140,6 +140,14 @@ main(int argc, char **argv)
             continue;
         }
 
+        if (ret != MBUS_RECV_RESULT_OK)
+        {
+            /* no reply to judge, the connection is gone */
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
         if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
         {
             /* check for more data (collision) */
-- 
2.43.0


From f8394e492ba8a83d0b97a2778abfe502eca0ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 49/59] fix: mbus-serial-scan took a stale reply for a device
 after a failed ping

---
 bin/mbus-serial-scan.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index a93d876..736c49a 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -160,6 +160,14 @@ main(int argc, char **argv)
             continue;
         }
 
+        if (ret != MBUS_RECV_RESULT_OK)
+        {
+            /* no reply to judge, the connection is gone */
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
         if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
         {
             /* check for more data (collision) */
-- 
2.43.0


From 935c19632bc5bce16c91e5f6332ed57d327375ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 50/59] fix: freeing a long multi-telegram reply overflowed the
 stack

---
 mbus/mbus-protocol.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index ef068ce..147fc06 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -180,10 +180,16 @@ mbus_frame_free(mbus_frame *frame)
 {
     if (frame)
     {
-        if (frame->next != NULL)
-            mbus_frame_free(frame->next);
+        // free the telegrams of a multi-telegram reply one by one, there can
+        // be too many of them to do it recursively
+        while (frame != NULL)
+        {
+            mbus_frame *next = (mbus_frame *) frame->next;
+
+            free(frame);
+            frame = next;
+        }
 
-        free(frame);
         return 0;
     }
     return -1;
-- 
2.43.0


From 302956eae9cb9c3c3f8ba17a8848316397e3b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 51/59] fix: manufacturer specific data was dumped in reverse
 order, unlike the documents of the sample telegrams

---
 mbus/mbus-protocol-aux.c |  2 +-
 mbus/mbus-protocol.c     | 32 +++++++++++++++++++++++++++++++-
 mbus/mbus-protocol.h     |  1 +
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 71806fc..3641a0d 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1032,7 +1032,7 @@ int mbus_variable_value_decode(mbus_data_record *record, double *value_out_real,
                     return -1;
                 }
                 *value_out_str_size = 3 * record->data_len;
-                mbus_data_bin_decode((unsigned char*)(*value_out_str), record->data, record->data_len, (3 * record->data_len + 1));
+                mbus_data_raw_decode((unsigned char*)(*value_out_str), record->data, record->data_len, (3 * record->data_len + 1));
                 result = 0;
                 break;
 
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 147fc06..607e61f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -809,6 +809,35 @@ mbus_data_bin_decode(unsigned char *dst, const unsigned char *src, size_t len, s
     }
 }
 
+//------------------------------------------------------------------------------
+///
+/// Decode data without a known format (hex dump in the order of transmission).
+///
+//------------------------------------------------------------------------------
+void
+mbus_data_raw_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len)
+{
+    size_t i, pos;
+
+    pos = 0;
+
+    if (src && dst)
+    {
+        for (i = 0; (i < len) && ((pos+3) < max_len); i++)
+        {
+            pos += snprintf(&dst[pos], max_len - pos, "%.2X ", src[i]);
+        }
+
+        if (pos > 0)
+        {
+            // remove last space
+            pos--;
+        }
+
+        dst[pos] = '\0';
+    }
+}
+
 //------------------------------------------------------------------------------
 ///
 /// Decode time data
@@ -3406,7 +3435,8 @@ mbus_data_record_decode(mbus_data_record *record)
 
             case 0x0F: // special functions
 
-                mbus_data_bin_decode(buff, record->data, record->data_len, sizeof(buff));
+                // no number format: dump in the order of transmission
+                mbus_data_raw_decode(buff, record->data, record->data_len, sizeof(buff));
                 break;
 
             case 0x0D: // variable length
diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index c88f033..a0d9d57 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -645,6 +645,7 @@ void mbus_data_tm_decode(struct tm *t, unsigned char *t_data, size_t t_data_size
 void mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len);
 
 void mbus_data_bin_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len);
+void mbus_data_raw_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len);
 
 const char *mbus_data_fixed_medium(mbus_data_fixed *data);
 const char *mbus_data_fixed_unit(int medium_unit_byte);
-- 
2.43.0


From a911811b19bb71f068f05d3ac380f148cdd0d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 52/59] fix: the printed listing showed maximum and minimum
 values as values during error state

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 607e61f..b2a3c47 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4553,7 +4553,7 @@ mbus_data_variable_print(mbus_data_variable *data)
             printf("DIF               = %.2X\n", record->drh.dib.dif);
             printf("DIF.Extension     = %s\n",  (record->drh.dib.dif & MBUS_DIB_DIF_EXTENSION_BIT) ? "Yes":"No");
             printf("DIF.StorageNumber = %d\n",  (record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_STORAGE_NO) >> 6);
-            printf("DIF.Function      = %s\n",  (record->drh.dib.dif & 0x30) ? "Value during error state" : "Instantaneous value" );
+            printf("DIF.Function      = %s\n",  mbus_data_record_function(record));
             printf("DIF.Data          = %.2X\n", record->drh.dib.dif & 0x0F);
 
             // VENDOR SPECIFIC
-- 
2.43.0


From 7d231dc062dcb94e81aec94d18d141d6a047c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 53/59] fix: a pseudo terminal that was configured before could
 not be connected or set to the same rate again

---
 mbus/mbus-serial.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 4061dcf..c3aae22 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -27,6 +27,30 @@
 
 #define PACKET_BUFF_SIZE 2048
 
+//------------------------------------------------------------------------------
+// Apply the terminal settings. A terminal that does not know about parity (a
+// pseudo terminal) ignores it, and when nothing else is to be changed the C
+// library reports that as EINVAL although the port is set up as far as possible.
+//------------------------------------------------------------------------------
+static int
+mbus_serial_configure(int fd, const struct termios *term)
+{
+    struct termios actual;
+
+    if (tcsetattr(fd, TCSANOW, term) == 0)
+        return 0;
+
+    if (errno == EINVAL &&
+        tcgetattr(fd, &actual) == 0 &&
+        cfgetispeed(&actual) == cfgetispeed(term) &&
+        cfgetospeed(&actual) == cfgetospeed(term))
+    {
+        return 0;
+    }
+
+    return -1;
+}
+
 //------------------------------------------------------------------------------
 /// Set up a serial connection handle.
 //------------------------------------------------------------------------------
@@ -90,7 +114,7 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    if (mbus_serial_configure(handle->fd, term) != 0)
     {
         fprintf(stderr, "%s: failed to configure tty.", __PRETTY_FUNCTION__);
         close(handle->fd);
@@ -177,7 +201,7 @@ mbus_serial_set_baudrate(mbus_handle *handle, long baudrate)
     }
 
     // Change baud rate immediately
-    if (tcsetattr(handle->fd, TCSANOW, &(serial_data->t)) != 0)
+    if (mbus_serial_configure(handle->fd, &(serial_data->t)) != 0)
     {
         return -1;
     }
-- 
2.43.0


From 181ec72525b43af4e518363aff497c3caf97283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 54/59] fix: probing a secondary address dereferenced a missing
 handle

---
 mbus/mbus-protocol-aux.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 3641a0d..e421129 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2329,6 +2329,12 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
     int ret, i;
     mbus_frame reply;
 
+    if (handle == NULL)
+    {
+        MBUS_ERROR("%s: Invalid M-Bus handle for probe.\n", __PRETTY_FUNCTION__);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mask == NULL || matching_addr == NULL || strlen(mask) != 16)
     {
         MBUS_ERROR("%s: Invalid address masks.\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From a60a890b4c6044d19e23f26828fac1bf532bab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:46 +0000
Subject: [PATCH 55/59] fix: creating a context without a device or host name
 crashed

---
 mbus/mbus-protocol-aux.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index e421129..8664238 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1537,6 +1537,12 @@ mbus_context_serial(const char *device)
     mbus_serial_data *serial_data;
     char error_str[128];
 
+    if (device == NULL)
+    {
+        MBUS_ERROR("%s: Invalid device.\n", __PRETTY_FUNCTION__);
+        return NULL;
+    }
+
     if ((handle = (mbus_handle *) malloc(sizeof(mbus_handle))) == NULL)
     {
         MBUS_ERROR("%s: Failed to allocate handle.\n", __PRETTY_FUNCTION__);
@@ -1586,6 +1592,12 @@ mbus_context_tcp(const char *host, uint16_t port)
     mbus_tcp_data *tcp_data;
     char error_str[128];
 
+    if (host == NULL)
+    {
+        MBUS_ERROR("%s: Invalid host.\n", __PRETTY_FUNCTION__);
+        return NULL;
+    }
+
     if ((handle = (mbus_handle *) malloc(sizeof(mbus_handle))) == NULL)
     {
         MBUS_ERROR("%s: Failed to allocate handle.\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From d84fb6b21a1ab46eb5e400e64c0b67f208dfbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:52 +0000
Subject: [PATCH 56/59] fix: refuse a TCP time-out that is no number or too
 large to be represented

---
 mbus/mbus-tcp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index aa1acb3..3da3320 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -275,7 +275,8 @@ retry:
 int
 mbus_tcp_set_timeout_set(double seconds)
 {
-    if (seconds < 0.0)
+    // the negation refuses NaN as well
+    if (!(seconds >= 0.0 && seconds <= INT_MAX))
     {
         mbus_error_str_set("Invalid timeout (must be positive).");
         return -1;
-- 
2.43.0


From 7edd626c4e4ebfab894cb1d991e168c9ea637a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:58 +0000
Subject: [PATCH 57/59] fix: do not read in front of an empty BCD value

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index b2a3c47..2ce5ef0 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -518,7 +518,7 @@ mbus_data_bcd_decode(unsigned char *bcd_data, size_t bcd_data_size)
     long long val = 0;
     size_t i;
 
-    if (bcd_data)
+    if (bcd_data && bcd_data_size)
     {
         for (i = bcd_data_size; i > 0; i--)
         {
-- 
2.43.0


From b71aaa576dd16d1099ab0367f3f2baa220ffa17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:57 +0000
Subject: [PATCH 58/59] fix: portable float decoder halved subnormal values

---
 mbus/mbus-protocol.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 2ce5ef0..7b42d13 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -737,6 +737,11 @@ mbus_data_float_decode(unsigned char *float_data)
             // normalized value, add bit 24
             fraction |= 0x800000;
         }
+        else if (exponent == -127)
+        {
+            // subnormal value, same scale as the smallest normalized ones
+            exponent = -126;
+        }
 
         // calculate float value
         val = (float) sign * fraction * pow(2.0f, -23.0f + exponent);
-- 
2.43.0


From 46803b1133919dbe99410e504564b407ef3468b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:58 +0000
Subject: [PATCH 59/59] fix: declare pow for the portable float decoder

---
 mbus/mbus-protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 7b42d13..02f9d32 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -10,6 +10,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <math.h>
 #include <stdio.h>
 #include <string.h>
 
-- 
2.43.0

