From 19ae31dcc81ee871d44a74419c3958d196b44cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:24 +0000
Subject: [PATCH 01/15] fix: reject a delta file whose custom code table fails
 validation

ReadCustomCodeTable() ignored the result of UseCodeTable(), so a delta file
with an invalid custom code table was decoded with whichever table had been
in use before instead of being rejected.
---
 src/vcdecoder.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..c5ae28e 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -843,7 +843,17 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  // Find out about unusable cache sizes first: the code table can only be
+  // validated if all modes exist.
+  if (!addr_cache_->Init()) {
+    VCD_DFATAL << "Error initializing address cache" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    VCD_ERROR << "Custom code table is not valid" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 4d07adf65eb8b8f24f2c67ee118b8cdb88fc3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:46 +0000
Subject: [PATCH 02/15] fix: classify COPY modes correctly when the near cache
 has 254 entries

FirstSameMode() does not fit in an unsigned char for near_cache_size == 254,
so every mode was taken for a SAME mode and DecodeAddress() read past the end
of the empty same cache.
---
 src/addrcache.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..67716bb 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -103,11 +103,13 @@ class VCDiffAddressCache {
   }
 
   bool IsNearMode(unsigned char mode) const {
-    return (mode >= FirstNearMode()) && (mode < FirstSameMode());
+    const int near_pos = mode - VCD_FIRST_NEAR_MODE;
+    return (near_pos >= 0) && (near_pos < near_cache_size());
   }
 
   bool IsSameMode(unsigned char mode) const {
-    return (mode >= FirstSameMode()) && (mode <= LastMode());
+    const int same_pos = mode - (VCD_FIRST_NEAR_MODE + near_cache_size());
+    return (same_pos >= 0) && (same_pos < same_cache_size());
   }
 
   static VCDAddress DecodeSelfAddress(int32_t encoded_address) {
-- 
2.43.0


From 16bb13d534eddfe440700a28988cc32d6e2dea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:46 +0000
Subject: [PATCH 03/15] fix: avoid signed overflow when decoding a NEAR address

---
 src/addrcache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index 67716bb..9032777 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -123,7 +123,11 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    // Both operands are non-negative; a sum that does not fit in a VCDAddress
+    // wraps to a negative (invalid) address.
+    return static_cast<VCDAddress>(
+        static_cast<uint32_t>(NearAddress(mode - FirstNearMode())) +
+        static_cast<uint32_t>(encoded_address));
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From 5ffdb257d50db3822cf13dcc85264b143b1247c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:46 +0000
Subject: [PATCH 04/15] fix: reject nested custom code tables

A delta file made of many headers that each define a custom code table made
DecodeChunk() recurse once per header and overflow the stack.
---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index c5ae28e..6deed10 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -737,6 +737,14 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // This object is decoding a custom code table.  The encoding of a code
+      // table uses the default code table (RFC section 7), and allowing it to
+      // define another one would make the nesting depth unbounded.
+      VCD_ERROR << "The encoding of a custom code table must not itself"
+                   " define a custom code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From 7e3923bf0aacedcacc7bb68f68f1af5b866845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:46 +0000
Subject: [PATCH 05/15] fix: enforce a maximum target file size lowered while
 decoding

If the limit was set below the number of bytes already decoded, the remaining
allowance wrapped around and the limit was no longer enforced at all.
---
 src/vcdecoder.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6deed10..50da40b 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -988,9 +988,10 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
-  size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
-  if (window_size > remaining_maximum_target_bytes) {
+  // The maximum may have been lowered after some windows had been decoded.
+  if ((total_of_target_window_sizes_ > maximum_target_file_size_) ||
+      (window_size >
+          maximum_target_file_size_ - total_of_target_window_sizes_)) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
               << total_of_target_window_sizes_
-- 
2.43.0


From 45cc277e3485648affab352527da43e071567224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/15] fix: do not carry a custom code table over to the next
 delta file

After decoding a delta file with a custom code table, the same decoder object
went on to use that table for later delta files that did not define one.
---
 src/decodetable.h | 6 ++++++
 src/vcdecoder.cc  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..8685992 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,12 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Goes back to the default code table, undoing any call to UseCodeTable().
+  //
+  void UseDefaultCodeTable() {
+    code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+  }
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 50da40b..b23ff4d 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,7 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From 9cf5c79bbbe580c8f1f418237e14d85393da7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 07/15] fix: reject a window whose last opcode has an
 instruction left over

The second instruction of a double-instruction opcode was silently ignored if
the first one already completed the target window.
---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index 8685992..9658633 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -104,6 +104,13 @@ class VCDiffCodeTableReader {
   //
   VCDiffInstructionType GetNextInstruction(int32_t* size, unsigned char* mode);
 
+  // Returns true if the second instruction of the opcode that was last read
+  // has not yet been returned by GetNextInstruction().
+  //
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
   // Puts a single instruction back onto the front of the
   // instruction stream.  The next call to GetNextInstruction()
   // will return the same value that was returned by the last
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index b23ff4d..d5428ed 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1330,7 +1330,7 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  if (!instructions_and_sizes_.Empty() || reader_.HasPendingInstruction()) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From d27bfceb9285e496d18a2d7ec9fdacb5c366133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 08/15] fix: reset all JSON writer state in Init()

Encoding an empty target after a non-empty one with the same encoder produced
a lone "]".
---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From 682e5151e0fd16bba4b733c67efafa39a9ea76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/15] fix: escape the byte repeated by a RUN in JSON output

---
 src/jsonwriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..f7624ce 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,8 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  const string run(size, byte);
+  JSONEscape(run.data(), run.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From 258d2ec598e8ede1391e01bb02b55290b13232e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 10/15] fix: initialize the default instruction map in a
 thread-safe way

Several threads may encode with the same HashedDictionary, and each of them
calls GetDefaultInstructionMap().
---
 src/instruction_map.cc | 11 ++++-------
 src/instruction_map.h  |  2 --
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..ea2d67c 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -22,14 +22,11 @@ namespace open_vcdiff {
 
 // VCDiffInstructionMap members and methods
 
-VCDiffInstructionMap* VCDiffInstructionMap::default_instruction_map = NULL;
-
 VCDiffInstructionMap* VCDiffInstructionMap::GetDefaultInstructionMap() {
-  if (!default_instruction_map) {
-    default_instruction_map = new VCDiffInstructionMap(
-        VCDiffCodeTableData::kDefaultCodeTableData,
-        VCDiffAddressCache::DefaultLastMode());
-  }
+  // Function-local so that several threads may call this function at once.
+  static VCDiffInstructionMap* const default_instruction_map =
+      new VCDiffInstructionMap(VCDiffCodeTableData::kDefaultCodeTableData,
+                               VCDiffAddressCache::DefaultLastMode());
   return default_instruction_map;
 }
 
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..ad8e9fc 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -195,8 +195,6 @@ class VCDiffInstructionMap {
     void operator=(const SecondInstructionMap&);
   } second_instruction_map_;
 
-  static VCDiffInstructionMap* default_instruction_map;
-
   // Making these private avoids implicit copy constructor & assignment operator
   VCDiffInstructionMap(const VCDiffInstructionMap&);  // NOLINT
   void operator=(const VCDiffInstructionMap&);
-- 
2.43.0


From 3b059b2cd2a54d8d086fbb52e1e3e16bc01be9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 11/15] fix: do not loop forever on an empty input file

The read buffer was given the size of the file, so nothing was ever read and
feof() never became true.
---
 src/vcdiff_main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..0a88229 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -282,6 +282,11 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
       buffer_size = file_size;
     }
   }
+  // An empty file still needs a buffer: reading zero bytes at a time would
+  // never set the end-of-file indicator.
+  if (buffer_size == 0U) {
+    buffer_size = 1U;
+  }
   buffer->resize(buffer_size);
   return true;
 }
-- 
2.43.0


From f36fcec070099b49846b021a163740d222a437e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:40 +0000
Subject: [PATCH 12/15] fix: report output that could not be written when the
 file is flushed

Output that stayed in the stdio buffer was only written by fclose() or exit(),
whose errors were ignored, so "vcdiff encode ... > /dev/full" succeeded.
---
 src/vcdiff_main.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 0a88229..5c9ee24 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Makes sure that everything written to output_file_ has left the stdio
+  // buffer.  If successful, returns true.  If an error occurs, writes an error
+  // log message and returns false.
+  bool FlushOutput();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -341,6 +346,15 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::FlushOutput() {
+  if (fflush(output_file_) != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -438,7 +452,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
@@ -502,7 +516,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From ee0fbb1a69ed2bf98ba21a285e4ff6f4fd5827f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:43 +0000
Subject: [PATCH 13/15] fix: encode an explicit size for instructions of size 0

A size of 0 in the code table means "size follows", so looking up an opcode
for an instruction of size 0 found the explicit-size opcode but no size was
written, and the delta could not be decoded.
---
 src/encodetable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index ce017de..9f1a1eb 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -188,7 +188,7 @@ void VCDiffCodeTableWriter::EncodeInstruction(VCDiffInstructionType inst,
                      " in a row" << VCD_ENDL;
     }
     OpcodeOrNone compound_opcode = kNoOpcode;
-    if (size <= UCHAR_MAX) {
+    if ((size > 0) && (size <= UCHAR_MAX)) {
       compound_opcode = instruction_map_->LookupSecondOpcode(
           last_opcode, static_cast<unsigned char>(inst),
           static_cast<unsigned char>(size), mode);
@@ -211,7 +211,7 @@ void VCDiffCodeTableWriter::EncodeInstruction(VCDiffInstructionType inst,
     }
   }
   OpcodeOrNone opcode = kNoOpcode;
-  if (size <= UCHAR_MAX) {
+  if ((size > 0) && (size <= UCHAR_MAX)) {
     opcode = instruction_map_->LookupFirstOpcode(
         static_cast<unsigned char>(inst), static_cast<unsigned char>(size),
         mode);
-- 
2.43.0


From e9b64916c63689ab7bf7ee9d168683f054471e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:44 +0000
Subject: [PATCH 14/15] fix: VCDiffCodeTableWriter::Init discards pending
 instructions

CodeTableWriterInterface documents that Init() restores the initial state of
the object, but the sections written since the last Output() were kept.
---
 src/encodetable.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index 9f1a1eb..9e06aff 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -114,6 +114,9 @@ bool VCDiffCodeTableWriter::Init(size_t dictionary_size) {
   if (!address_cache_.Init()) {
     return false;
   }
+  instructions_and_sizes_.clear();
+  separate_data_for_add_and_run_.clear();
+  separate_addresses_for_copy_.clear();
   target_length_ = 0;
   last_opcode_index_ = -1;
   return true;
-- 
2.43.0


From 59b16f46803729a392d2927afb3c5aaa3ca2bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:23 +0000
Subject: [PATCH 15/15] fix: heap overflow in VCDiffInstructionMap for
 NOOP+instruction opcodes

An opcode whose first instruction is NOOP is stored in the first instruction
map under the size of its second instruction, but that map was sized by the
largest first size only.
---
 src/instruction_map.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index ea2d67c..3552184 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -14,6 +14,7 @@
 
 #include <config.h>
 #include "instruction_map.h"
+#include <algorithm>  // std::max
 #include <string.h>  // memset
 #include "addrcache.h"
 #include "vcdiff_defs.h"
@@ -147,8 +148,10 @@ OpcodeOrNone VCDiffInstructionMap::SecondInstructionMap::Lookup(
 VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
+    // The first map also holds the opcodes whose only instruction is the second.
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0

