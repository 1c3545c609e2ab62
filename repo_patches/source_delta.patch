From 15e88e6ed8bcdc0edc117977f9b31e539dc2534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:10 +0000
Subject: [PATCH 01/79] fix: report correct positions of fixed-laced frames

The frame position of fixed-size laces did not count the block's header.
---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..1df0a07 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -215,8 +215,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From 0e50499d4d61d3bb5a828696de5a9cd3d12080ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 02/79] fix: reject laced blocks whose lace sizes overflow when
 summed

EBML lace sizes are encoded as signed differences, so a size may wrap around
to a huge value; the sum then wraps back and passes validation, and frames
extending beyond the block are reported.
---
 webm_parser/src/block_parser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 1df0a07..f0df225 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -9,7 +9,6 @@
 
 #include <cassert>
 #include <cstdint>
-#include <numeric>
 #include <type_traits>
 #include <vector>
 
@@ -224,11 +223,18 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        std::uint64_t sum = std::accumulate(
-            lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
+        // Lace sizes are untrusted and their sum may overflow, so validate each
+        // of them against the bytes that remain in the block.
+        std::uint64_t sum = header_bytes_read_;
         if (sum >= frame_metadata_.parent_element.size) {
           return Status(Status::kInvalidElementValue);
         }
+        for (const std::uint64_t lace_size : lace_sizes_) {
+          if (lace_size >= frame_metadata_.parent_element.size - sum) {
+            return Status(Status::kInvalidElementValue);
+          }
+          sum += lace_size;
+        }
         lace_sizes_.push_back(frame_metadata_.parent_element.size - sum);
         frame_metadata_.position = frame_metadata_.parent_element.position +
                                    frame_metadata_.parent_element.header_size +
-- 
2.43.0


From 899b2449b80df95ef12d7f76d372e4ff39ecc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:23 +0000
Subject: [PATCH 03/79] fix: do not skip past the end of a block whose header
 fills it

Skipping such a block asked the reader to skip 0 bytes (not permitted) or,
when the header is longer than the declared size, almost 2^64 bytes.
---
 webm_parser/src/block_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index f0df225..d4b6a5b 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -245,6 +245,11 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kSkipping:
+        if (header_bytes_read_ > frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        } else if (header_bytes_read_ == frame_metadata_.parent_element.size) {
+          return Status(Status::kOkCompleted);
+        }
         do {
           // Skip the remaining part of the header and all of the frames.
           status = reader->Skip(
-- 
2.43.0


From cd6b6de1dacfaa4fc3d75e060853154b8680c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:14 +0000
Subject: [PATCH 04/79] fix: consume the whole body of a BlockVirtual element

Bytes after the block header were left in the stream and parsed as sibling
elements.
---
 webm_parser/src/virtual_block_parser.cc | 16 ++++++++++++++++
 webm_parser/src/virtual_block_parser.h  |  9 +++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/webm_parser/src/virtual_block_parser.cc b/webm_parser/src/virtual_block_parser.cc
index 712c77f..f751496 100644
--- a/webm_parser/src/virtual_block_parser.cc
+++ b/webm_parser/src/virtual_block_parser.cc
@@ -58,6 +58,22 @@ Status VirtualBlockParser::Feed(Callback* callback, Reader* reader,
         if (my_size_ < total_bytes_read_) {
           return Status(Status::kInvalidElementValue);
         }
+        state_ = State::kSkippingRemainder;
+        continue;
+      }
+
+      case State::kSkippingRemainder: {
+        // A virtual block has no frame data; anything after the header is
+        // ignored, but it must still be consumed.
+        while (total_bytes_read_ < my_size_) {
+          status =
+              reader->Skip(my_size_ - total_bytes_read_, &local_num_bytes_read);
+          *num_bytes_read += local_num_bytes_read;
+          total_bytes_read_ += local_num_bytes_read;
+          if (!status.ok()) {
+            return status;
+          }
+        }
         state_ = State::kDone;
         continue;
       }
diff --git a/webm_parser/src/virtual_block_parser.h b/webm_parser/src/virtual_block_parser.h
index d7b8cd7..4d3ae19 100644
--- a/webm_parser/src/virtual_block_parser.h
+++ b/webm_parser/src/virtual_block_parser.h
@@ -56,10 +56,11 @@ class VirtualBlockParser : public ElementParser {
 
   enum class State {
     /* clang-format off */
-    // State             Transitions to state  When
-    kReadingHeader,   // kValidatingSize       header parsed
-    kValidatingSize,  // kDone                 no errors
-    kDone,            // No transitions from here (must call Init)
+    // State                Transitions to state  When
+    kReadingHeader,      // kValidatingSize       header parsed
+    kValidatingSize,     // kSkippingRemainder    no errors
+    kSkippingRemainder,  // kDone                 element fully consumed
+    kDone,               // No transitions from here (must call Init)
     /* clang-format on */
   } state_ = State::kReadingHeader;
 };
-- 
2.43.0


From e4f0dff0dbf5b98c451eefe07e95b56c9f767fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:23 +0000
Subject: [PATCH 05/79] fix: keep the element that ends a recursive element of
 unknown size

RecursiveParser did not forward GetCachedMetadata() (or WasSkipped()), so the
header of the element following an unknown-size nested ChapterAtom or
SimpleTag was dropped and its body parsed as if it were elements.
---
 webm_parser/src/recursive_parser.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..333decb 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,18 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
+  bool WasSkipped() const override {
+    assert(impl_ != nullptr);
+
+    return impl_->WasSkipped();
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From aaaede3d748b39a4be6841b11d0593acd5897167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 06/79] fix: keep the position of the element ending an
 unknown-size top-level element

Its header has already been read, so the reader's position is past its start.
---
 webm_parser/src/webm_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index cf8bc94..2655d00 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -167,11 +167,11 @@ class WebmParser::DocumentParser {
             state_ = State::kValidatingChildSize;
           } else {
             child_metadata_.header_size = 0;
+            child_metadata_.position = reader->Position();
             state_ = State::kReadingChildId;
           }
           PrepareForNextChild();
           callback = original_callback;
-          child_metadata_.position = reader->Position();
           continue;
         }
 
-- 
2.43.0


From a63db3c26a3c6886cf278eef158eca20ba2eaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:34 +0000
Subject: [PATCH 07/79] fix: end an empty unknown-size element at the end of
 its parent

The parser went on to read a child from beyond the known-size parent and
failed with an overflow error.
---
 webm_parser/src/master_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d8c3dba..ce0d715 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -35,7 +35,8 @@ Status MasterParser::Init(const ElementMetadata& metadata,
     max_size_ = max_size;
   }
 
-  if (metadata.size == 0) {
+  // An element of unknown size is empty if there's no room left for children.
+  if (max_size_ == 0) {
     state_ = State::kEndReached;
   } else {
     state_ = State::kFirstReadOfChildId;
-- 
2.43.0


From 193c195738612ed6485318f6d78d1abe32c3829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:39 +0000
Subject: [PATCH 08/79] fix: do not drop an empty element that ends its parent

When an unknown-size element was ended by an empty sibling that is the last
child of a known-size parent, the sibling was silently discarded.
---
 webm_parser/src/master_parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index ce0d715..d5b636b 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -246,13 +246,13 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
         if (total_bytes_read_ > byte_cap) {
           return Status(Status::kElementOverflow);
-        } else if (total_bytes_read_ == byte_cap) {
-          state_ = State::kEndReached;
-          continue;
         }
 
         if (child_parser_->GetCachedMetadata(&child_metadata_)) {
           state_ = State::kValidatingChildSize;
+        } else if (total_bytes_read_ == byte_cap) {
+          state_ = State::kEndReached;
+          continue;
         } else {
           state_ = State::kFirstReadOfChildId;
         }
-- 
2.43.0


From 93db56c1e226f65c44c6424113b34d699f9dfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:13 +0000
Subject: [PATCH 09/79] fix: do not store skipped unknown-size children

A child of unknown size that the callback asked to skip is still parsed in
order to find its end, but its (empty) value was then stored in the parent as
if the element had been read.
---
 webm_parser/src/master_parser.h       | 5 +++++
 webm_parser/src/master_value_parser.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/webm_parser/src/master_parser.h b/webm_parser/src/master_parser.h
index d3ca7c7..6941125 100644
--- a/webm_parser/src/master_parser.h
+++ b/webm_parser/src/master_parser.h
@@ -114,6 +114,11 @@ class MasterParser : public ElementParser {
     return child_metadata_;
   }
 
+  // Gets the action for the child that is currently being parsed. This may only
+  // be called while the child's body (not its header information like ID and
+  // size) is being parsed.
+  Action child_action() const { return action_; }
+
  protected:
   // Allocates a new parser of type T, forwarding args to the constructor, and
   // creates a std::pair<Id, std::unique_ptr<ElementParser>> using the given id
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 2a02a3f..99e16dd 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -448,6 +448,7 @@ class MasterValueParser : public ElementParser {
 
       status = Base::Feed(callback, reader, num_bytes_read);
       if (status.completed_ok() && parent_->action_ != Action::kSkip &&
+          parent_->master_parser_.child_action() != Action::kSkip &&
           !WasSkipped()) {
         consume_element_value_(this);
         if (has_tag<TagNotifyOnParseComplete>()) {
-- 
2.43.0


From f031b7ac4dc45e533a5c2d534b3eac1a65bf2f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 10/79] fix: do not assert on a child ID that crosses the end
 of its parent

If the first byte(s) of the ID fill the parent and the rest arrives in a later
Feed() call, the assertion failed instead of kElementOverflow being returned.
---
 webm_parser/src/master_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d5b636b..a1dc0d4 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -124,7 +124,7 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kFinishingReadingChildId: {
         assert(child_parser_ == nullptr);
-        assert(my_size_ == kUnknownElementSize || total_bytes_read_ < my_size_);
+        assert(total_bytes_read_ > 0);
         status = id_parser_.Feed(callback, reader, &local_num_bytes_read);
         *num_bytes_read += local_num_bytes_read;
         total_bytes_read_ += local_num_bytes_read;
-- 
2.43.0


From 061f80bfbe192570f84d7739b6e91cf3b1160a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:09 +0000
Subject: [PATCH 11/79] fix: resume parsing after a seek to a Colour or
 Projection element

The ancestory table did not list Colour, MasteringMetadata, Projection and
their children, so after a seek to one of them it was reported as an unknown
element at the document level.
---
 webm_parser/src/ancestory.cc | 57 +++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/webm_parser/src/ancestory.cc b/webm_parser/src/ancestory.cc
index 9860a28..ea1fec4 100644
--- a/webm_parser/src/ancestory.cc
+++ b/webm_parser/src/ancestory.cc
@@ -69,11 +69,12 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
   static constexpr Id kTimeSliceAncestory[] = {
       Id::kSegment, Id::kCluster, Id::kBlockGroup, Id::kSlices, Id::kTimeSlice,
   };
-  static constexpr Id kVideoAncestory[] = {
-      Id::kSegment,
-      Id::kTracks,
-      Id::kTrackEntry,
-      Id::kVideo,
+  static constexpr Id kMasteringMetadataAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry,
+      Id::kVideo,   Id::kColour, Id::kMasteringMetadata,
+  };
+  static constexpr Id kProjectionAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry, Id::kVideo, Id::kProjection,
   };
   static constexpr Id kAudioAncestory[] = {
       Id::kSegment,
@@ -187,7 +188,7 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
       return true;
 
     case Id::kTrackEntry:
-      *ancestory = Ancestory(kVideoAncestory, 2);
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 2);
       return true;
 
     case Id::kTrackNumber:
@@ -208,7 +209,7 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kVideo:
     case Id::kAudio:
     case Id::kContentEncodings:
-      *ancestory = Ancestory(kVideoAncestory, 3);
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 3);
       return true;
 
     case Id::kFlagInterlaced:
@@ -225,7 +226,47 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kDisplayUnit:
     case Id::kAspectRatioType:
     case Id::kFrameRate:
-      *ancestory = Ancestory(kVideoAncestory, 4);
+    case Id::kColour:
+    case Id::kProjection:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 4);
+      return true;
+
+    case Id::kMatrixCoefficients:
+    case Id::kBitsPerChannel:
+    case Id::kChromaSubsamplingHorz:
+    case Id::kChromaSubsamplingVert:
+    case Id::kCbSubsamplingHorz:
+    case Id::kCbSubsamplingVert:
+    case Id::kChromaSitingHorz:
+    case Id::kChromaSitingVert:
+    case Id::kRange:
+    case Id::kTransferCharacteristics:
+    case Id::kPrimaries:
+    case Id::kMaxCll:
+    case Id::kMaxFall:
+    case Id::kMasteringMetadata:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 5);
+      return true;
+
+    case Id::kPrimaryRChromaticityX:
+    case Id::kPrimaryRChromaticityY:
+    case Id::kPrimaryGChromaticityX:
+    case Id::kPrimaryGChromaticityY:
+    case Id::kPrimaryBChromaticityX:
+    case Id::kPrimaryBChromaticityY:
+    case Id::kWhitePointChromaticityX:
+    case Id::kWhitePointChromaticityY:
+    case Id::kLuminanceMax:
+    case Id::kLuminanceMin:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 6);
+      return true;
+
+    case Id::kProjectionType:
+    case Id::kProjectionPrivate:
+    case Id::kProjectionPoseYaw:
+    case Id::kProjectionPosePitch:
+    case Id::kProjectionPoseRoll:
+      *ancestory = Ancestory(kProjectionAncestory, 5);
       return true;
 
     case Id::kSamplingFrequency:
-- 
2.43.0


From 0d64a2feb32aa36239c9e9dcb69baf762c7bc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:14 +0000
Subject: [PATCH 12/79] fix: do not let FileReader::Skip() skip past the end of
 the file

fseek() beyond the end of a regular file succeeds, so a file truncated inside
an element that is being skipped was reported as complete.
---
 webm_parser/src/file_reader.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index a2a397b..577a6f2 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -90,13 +90,20 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
   if (num_to_skip < static_cast<unsigned long>(seek_offset)) {  // NOLINT
     seek_offset = static_cast<long>(num_to_skip);  // NOLINT
   }
-  if (!FSEEK_(file_.get(), seek_offset, SEEK_CUR)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  if (!FSEEK_(file_.get(), seek_offset - 1, SEEK_CUR)) {
+    // Seeking past the end of the file succeeds, so read the last byte to make
+    // sure the data being skipped actually exists.
+    if (std::fgetc(file_.get()) != EOF) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    if (FSEEK_(file_.get(), 1 - seek_offset, SEEK_CUR)) {
+      return Status(Status::kSeekFailed);
     }
   }
   std::clearerr(file_.get());
-- 
2.43.0


From bd1038dda3cf029dcfb642ec9911d19303ed1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:19 +0000
Subject: [PATCH 13/79] fix: do not let IstreamReader::Skip() skip past the end
 of a file

seekg() beyond the end of a file stream succeeds, so a file truncated inside
an element that is being skipped was reported as complete.
---
 webm_parser/src/istream_reader.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index 6993fc0..0cba691 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -89,13 +89,21 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
   } else {
     seek_offset = static_cast<std::streamsize>(num_to_skip);
   }
-  if (istream_->seekg(seek_offset, std::ios_base::cur)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  if (istream_->seekg(seek_offset - 1, std::ios_base::cur)) {
+    // Seeking past the end of a file succeeds, so read the last byte to make
+    // sure the data being skipped actually exists.
+    if (istream_->get() != std::istream::traits_type::eof()) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    istream_->clear();
+    if (!istream_->seekg(1 - seek_offset, std::ios_base::cur)) {
+      return Status(Status::kSeekFailed);
     }
   }
   istream_->clear();
-- 
2.43.0


From 69dda92cb30bcfafb683b9141eb6a505e96aa05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:38 +0000
Subject: [PATCH 14/79] fix: release the colour space of a video track

---
 mkvmuxer/mkvmuxer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..2937753 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1429,6 +1429,7 @@ VideoTrack::VideoTrack(unsigned int* seed)
       projection_(NULL) {}
 
 VideoTrack::~VideoTrack() {
+  delete[] colour_space_;
   delete colour_;
   delete projection_;
 }
-- 
2.43.0


From d9ea695bd1d21f614d430fc8e180dde369f32bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:44 +0000
Subject: [PATCH 15/79] fix: reject frames without data before changing the
 segment

---
 mkvmuxer/mkvmuxer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 2937753..1163fc8 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3505,6 +3505,12 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!frame)
     return false;
 
+  // Reject frames that can never be written before anything is changed.
+  if (frame->length() == 0 || !frame->frame() ||
+      (frame->additional() && frame->additional_length() == 0)) {
+    return false;
+  }
+
   if (!CheckHeaderInfo())
     return false;
 
-- 
2.43.0


From e1dad239bf5050e94f3151a32651fd6dbbd1b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 16/79] fix: do not lose queued audio frames that need a
 reference block

---
 mkvmuxer/mkvmuxer.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 1163fc8..77ca495 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3548,6 +3548,17 @@ bool Segment::AddGenericFrame(const Frame* frame) {
       delete new_frame;
       return false;
     }
+    // A queued frame that is not a SimpleBlock needs its reference block as
+    // well, or it cannot be written later.
+    if (!new_frame->CanBeSimpleBlock() && !new_frame->is_key() &&
+        !new_frame->reference_block_timestamp_set()) {
+      uint64_t reference = last_track_timestamp_[frame->track_number() - 1];
+      for (int32_t i = 0; i < frames_size_; ++i) {
+        if (frames_[i]->track_number() == frame->track_number())
+          reference = frames_[i]->timestamp();
+      }
+      new_frame->set_reference_block_timestamp(reference);
+    }
     if (!QueueFrame(new_frame)) {
       delete new_frame;
       return false;
-- 
2.43.0


From fc565c8921cf7a9bcb647c9088930c46ba311843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:42 +0000
Subject: [PATCH 17/79] fix: do not keep freed frames when writing a held back
 frame fails

---
 mkvmuxer/mkvmuxer.cc | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 77ca495..ddeaca9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2683,18 +2683,18 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   if (!frame_to_store) {
     return false;
   }
-  frame_to_store->CopyFrom(*frame);
+  if (!frame_to_store->CopyFrom(*frame)) {
+    delete frame_to_store;
+    return false;
+  }
   stored_frames_[track_number].push_back(frame_to_store);
 
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
-  std::vector<std::list<Frame*>::iterator> frames_to_erase;
-  for (std::list<Frame*>::iterator
-           current_track_iterator = stored_frames_[track_number].begin(),
-           end = --stored_frames_[track_number].end();
-       current_track_iterator != end; ++current_track_iterator) {
-    const Frame* const frame_to_write = *current_track_iterator;
+  std::list<Frame*>& track_frames = stored_frames_[track_number];
+  while (track_frames.size() > 1) {
+    const Frame* const frame_to_write = track_frames.front();
     bool okay_to_write = true;
     for (FrameMapIterator track_iterator = stored_frames_.begin();
          track_iterator != stored_frames_.end(); ++track_iterator) {
@@ -2707,20 +2707,14 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
         break;
       }
     }
-    if (okay_to_write) {
-      const bool wrote_frame = DoWriteFrame(frame_to_write);
-      delete frame_to_write;
-      if (!wrote_frame)
-        return false;
-      frames_to_erase.push_back(current_track_iterator);
-    } else {
+    if (!okay_to_write)
       break;
-    }
-  }
-  for (std::vector<std::list<Frame*>::iterator>::iterator iterator =
-           frames_to_erase.begin();
-       iterator != frames_to_erase.end(); ++iterator) {
-    stored_frames_[track_number].erase(*iterator);
+
+    const bool wrote_frame = DoWriteFrame(frame_to_write);
+    track_frames.pop_front();
+    delete frame_to_write;
+    if (!wrote_frame)
+      return false;
   }
   return true;
 }
-- 
2.43.0


From 0fadae005a662b3bf3eccfd80f99c7d77f8ccfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:09 +0000
Subject: [PATCH 18/79] fix: report queued frames that could not be written

---
 mkvmuxer/mkvmuxer.cc | 54 ++++++++++++++++++++------------------------
 mkvmuxer/mkvmuxer.h  |  4 ++++
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index ddeaca9..8eb1c91 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4083,6 +4083,12 @@ bool Segment::QueueFrame(Frame* frame) {
   return true;
 }
 
+void Segment::RemoveQueuedFrames(int32_t count) {
+  for (int32_t i = count; i < frames_size_; ++i)
+    frames_[i - count] = frames_[i];
+  frames_size_ -= count;
+}
+
 int Segment::WriteFramesAll() {
   if (frames_ == NULL)
     return 0;
@@ -4101,25 +4107,23 @@ int Segment::WriteFramesAll() {
     // places where |doc_type_version_| needs to be updated.
     if (frame->discard_padding() != 0)
       doc_type_version_ = 4;
-    if (!cluster->AddFrame(frame)) {
-      delete frame;
-      continue;
-    }
+    bool written = cluster->AddFrame(frame);
 
-    if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-      if (!AddCuePoint(frame->timestamp(), cues_track_)) {
-        delete frame;
-        continue;
-      }
-    }
+    if (written && new_cuepoint_ && cues_track_ == frame->track_number())
+      written = AddCuePoint(frame->timestamp(), cues_track_);
 
-    if (frame->timestamp() > last_timestamp_) {
+    if (written && frame->timestamp() > last_timestamp_) {
       last_timestamp_ = frame->timestamp();
       last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
     }
 
     delete frame;
     frame = NULL;
+
+    if (!written) {
+      RemoveQueuedFrames(i + 1);
+      return -1;
+    }
   }
 
   const int result = frames_size_;
@@ -4153,39 +4157,29 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       const Frame* const frame_prev = frames_[i - 1];
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
-      if (!cluster->AddFrame(frame_prev)) {
-        delete frame_prev;
-        continue;
-      }
+      bool written = cluster->AddFrame(frame_prev);
 
-      if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
-        if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
-          delete frame_prev;
-          continue;
-        }
+      if (written && new_cuepoint_ &&
+          cues_track_ == frame_prev->track_number()) {
+        written = AddCuePoint(frame_prev->timestamp(), cues_track_);
       }
 
       ++shift_left;
-      if (frame_prev->timestamp() > last_timestamp_) {
+      if (written && frame_prev->timestamp() > last_timestamp_) {
         last_timestamp_ = frame_prev->timestamp();
         last_track_timestamp_[frame_prev->track_number() - 1] =
             frame_prev->timestamp();
       }
 
       delete frame_prev;
-    }
 
-    if (shift_left > 0) {
-      if (shift_left >= frames_size_)
+      if (!written) {
+        RemoveQueuedFrames(shift_left);
         return false;
-
-      const int32_t new_frames_size = frames_size_ - shift_left;
-      for (int32_t i = 0; i < new_frames_size; ++i) {
-        frames_[i] = frames_[i + shift_left];
       }
-
-      frames_size_ = new_frames_size;
     }
+
+    RemoveQueuedFrames(shift_left);
   }
 
   return true;
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..312a3c6 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1725,6 +1725,10 @@ class Segment {
   // Adds the frame to our frame array.
   bool QueueFrame(Frame* frame);
 
+  // Removes the first |count| entries from our frame array. The frames
+  // themselves must have been deleted already.
+  void RemoveQueuedFrames(int32_t count);
+
   // Output all frames that are queued. Returns -1 on error, otherwise
   // it returns the number of frames written.
   int WriteFramesAll();
-- 
2.43.0


From ebe75f2ccf02ae4ba5e1464d1c5f9da67ac2b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:14 +0000
Subject: [PATCH 19/79] fix: release the copy of a frame that could not be
 written

---
 mkvmuxer/mkvmuxer.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 8eb1c91..32a11d8 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3589,12 +3589,15 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     frame_created = true;
   }
 
-  if (!cluster->AddFrame(frame))
-    return false;
+  bool written = cluster->AddFrame(frame);
 
-  if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-    if (!AddCuePoint(frame->timestamp(), cues_track_))
-      return false;
+  if (written && new_cuepoint_ && cues_track_ == frame->track_number())
+    written = AddCuePoint(frame->timestamp(), cues_track_);
+
+  if (!written) {
+    if (frame_created)
+      delete frame;
+    return false;
   }
 
   last_timestamp_ = frame->timestamp();
-- 
2.43.0


From f99defb7a50f43e85c035de396189f4bb1a3e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:20 +0000
Subject: [PATCH 20/79] fix: write frames that are far from queued audio frames

---
 mkvmuxer/mkvmuxer.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 32a11d8..075119c 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3954,13 +3954,20 @@ bool Segment::DoNewClusterProcessing(uint64_t track_number,
       return false;
 
     // Write the current frame to the current cluster (if TestFrame
-    // returns 0) or to a newly created cluster (TestFrame returns 1).
-    if (result <= 1)
+    // returns 0) or to a newly created cluster (TestFrame returns 1),
+    // unless the new cluster starts with queued frames that are too far
+    // from the current frame.
+    const uint64_t frame_timecode =
+        frame_timestamp_ns / segment_info_.timecode_scale();
+    if (result <= 1 &&
+        frame_timecode - cluster_list_[cluster_list_size_ - 1]->timecode() <=
+            static_cast<uint64_t>(kMaxBlockTimecode)) {
       return true;
+    }
 
-    // TestFrame returned 2, which means there was a large time
-    // difference between the cluster and the frame itself.  Do the
-    // test again, comparing the frame to the new cluster.
+    // There was a large time difference between the cluster and the
+    // frame itself.  Do the test again, comparing the frame to the new
+    // cluster.
   }
 }
 
-- 
2.43.0


From c1b9533f84565c42591856464cec932b258ae31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:42 +0000
Subject: [PATCH 21/79] fix: do not queue audio frames too far from the first
 cluster

---
 mkvmuxer/mkvmuxer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 075119c..54f3635 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3519,12 +3519,15 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
-  if (cluster_list_size_ > 0) {
+  if (cluster_list_size_ > 0 || frames_size_ > 0) {
     const uint64_t timecode_scale = segment_info_.timecode_scale();
     const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
 
-    const Cluster* const last_cluster = cluster_list_[cluster_list_size_ - 1];
-    const uint64_t last_cluster_timecode = last_cluster->timecode();
+    // The first cluster will start with the first queued frame.
+    const uint64_t last_cluster_timecode =
+        cluster_list_size_ > 0
+            ? cluster_list_[cluster_list_size_ - 1]->timecode()
+            : frames_[0]->timestamp() / timecode_scale;
 
     const uint64_t rel_timecode = frame_timecode - last_cluster_timecode;
     if (rel_timecode > kMaxBlockTimecode) {
-- 
2.43.0


From 07c9a93f044e58bee388c0b4c47943dc48bcce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:48 +0000
Subject: [PATCH 22/79] fix: finalize a segment that only has queued audio
 frames

---
 mkvmuxer/mkvmuxer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 54f3635..c1b2332 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3222,6 +3222,13 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
 }
 
 bool Segment::Finalize() {
+  // Frames are still queued when a segment with a video track ends before its
+  // first video frame.
+  if (frames_size_ > 0 && cluster_list_size_ < 1 &&
+      !MakeNewCluster(frames_[0]->timestamp())) {
+    return false;
+  }
+
   if (WriteFramesAll() < 0)
     return false;
 
-- 
2.43.0


From d5744d1129022bf443f360ee30c6eb14eaabf509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:04 +0000
Subject: [PATCH 23/79] fix: leave room for the Cues entry when chapters and
 tags are present

---
 mkvmuxer/mkvmuxer.cc | 12 +++++++++---
 mkvmuxer/mkvmuxer.h  | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index c1b2332..379fca0 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2749,7 +2749,8 @@ bool Cluster::WriteClusterHeader() {
 //
 // SeekHead Class
 
-SeekHead::SeekHead() : start_pos_(0ULL) {
+SeekHead::SeekHead()
+    : reserved_entry_count_(kDefaultReservedEntryCount), start_pos_(0ULL) {
   for (int32_t i = 0; i < kSeekEntryCount; ++i) {
     seek_entry_id_[i] = 0;
     seek_entry_pos_[i] = 0;
@@ -2805,7 +2806,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
       }
     }
 
-    const uint64_t total_entry_size = kSeekEntryCount * MaxEntrySize();
+    const uint64_t total_entry_size = reserved_entry_count_ * MaxEntrySize();
     const uint64_t total_size =
         EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
         total_entry_size;
@@ -2823,7 +2824,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
 }
 
 bool SeekHead::Write(IMkvWriter* writer) {
-  const uint64_t entry_size = kSeekEntryCount * MaxEntrySize();
+  const uint64_t entry_size = reserved_entry_count_ * MaxEntrySize();
   const uint64_t size =
       EbmlMasterElementSize(libwebm::kMkvSeekHead, entry_size);
 
@@ -3752,6 +3753,11 @@ bool Segment::WriteSegmentHeader() {
     // SegmentInfo upadte it.
     segment_info_.set_duration(1.0);
 
+    // Info, Tracks, Cluster and Cues always fit next to one of Chapters and
+    // Tags.
+    if (chapters_.Count() > 0 && tags_.Count() > 0)
+      seek_head_.set_reserved_entry_count(SeekHead::kSeekEntryCount);
+
     if (!seek_head_.Write(writer_header_))
       return false;
   }
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 312a3c6..775d5a0 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1424,8 +1424,17 @@ class SeekHead {
   // a SeekHead element later. Returns true on success.
   bool Write(IMkvWriter* writer);
 
+  // Sets the number of Seek Entries that Write() reserves space for. Must be
+  // called before Write().
+  void set_reserved_entry_count(int32_t count) {
+    reserved_entry_count_ = count;
+  }
+
   // We are going to put a cap on the number of Seek Entries.
-  constexpr static int32_t kSeekEntryCount = 5;
+  constexpr static int32_t kSeekEntryCount = 6;
+
+  // The number of Seek Entries space is reserved for by default.
+  constexpr static int32_t kDefaultReservedEntryCount = 5;
 
  private:
   // Returns the maximum size in bytes of one seek entry.
@@ -1437,6 +1446,9 @@ class SeekHead {
   // Seek entry pos element list.
   uint64_t seek_entry_pos_[kSeekEntryCount];
 
+  // The number of Seek Entries space is reserved for.
+  int32_t reserved_entry_count_;
+
   // The file position of SeekHead element.
   int64_t start_pos_;
 
-- 
2.43.0


From b3d5d0d6d03850bba8230046581e0815f3900bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:10 +0000
Subject: [PATCH 24/79] fix: accept a maximum luminance without a minimum
 luminance

---
 mkvmuxer/mkvmuxer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 379fca0..a64aaab 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -999,7 +999,8 @@ bool MasteringMetadata::Valid() const {
   }
   if (luminance_max_ != kValueNotPresent) {
     if (luminance_max_ < kMinLuminance || luminance_max_ > kMaxLuminanceMax ||
-        luminance_max_ < luminance_min_) {
+        (luminance_min_ != kValueNotPresent &&
+         luminance_max_ < luminance_min_)) {
       return false;
     }
   }
-- 
2.43.0


From 4b3a26b0392c24859412c717c6e43a3439fd37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:57 +0000
Subject: [PATCH 25/79] fix: write frames that are far from queued audio frames
 (2)

---
 mkvmuxer/mkvmuxer.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index a64aaab..d02476a 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3971,14 +3971,12 @@ bool Segment::DoNewClusterProcessing(uint64_t track_number,
       return false;
 
     // Write the current frame to the current cluster (if TestFrame
-    // returns 0) or to a newly created cluster (TestFrame returns 1),
-    // unless the new cluster starts with queued frames that are too far
-    // from the current frame.
+    // returns 0) or to a newly created cluster, unless the new cluster
+    // starts with queued frames that are too far from the current frame.
     const uint64_t frame_timecode =
         frame_timestamp_ns / segment_info_.timecode_scale();
-    if (result <= 1 &&
-        frame_timecode - cluster_list_[cluster_list_size_ - 1]->timecode() <=
-            static_cast<uint64_t>(kMaxBlockTimecode)) {
+    if (frame_timecode - cluster_list_[cluster_list_size_ - 1]->timecode() <=
+        static_cast<uint64_t>(kMaxBlockTimecode)) {
       return true;
     }
 
-- 
2.43.0


From 4ffbecc6685a8c333467c0bd56447bd4c482f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:59 +0000
Subject: [PATCH 26/79] fix: do not lose queued frames that precede the first
 cluster

---
 mkvmuxer/mkvmuxer.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index d02476a..f24e766 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3528,15 +3528,26 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
-  if (cluster_list_size_ > 0 || frames_size_ > 0) {
+  if (cluster_list_size_ < 1 && frames_size_ > 0) {
+    // All queued frames will be written to the first cluster.
+    const int64_t timecode_scale = segment_info_.timecode_scale();
+    const int64_t frame_timecode = frame->timestamp() / timecode_scale;
+
+    for (int32_t i = 0; i < frames_size_; ++i) {
+      const int64_t queued_timecode = frames_[i]->timestamp() / timecode_scale;
+      if (queued_timecode - frame_timecode > kMaxBlockTimecode)
+        return false;
+      if (frame_timecode - queued_timecode > kMaxBlockTimecode)
+        force_new_cluster_ = true;
+    }
+  }
+
+  if (cluster_list_size_ > 0) {
     const uint64_t timecode_scale = segment_info_.timecode_scale();
     const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
 
-    // The first cluster will start with the first queued frame.
-    const uint64_t last_cluster_timecode =
-        cluster_list_size_ > 0
-            ? cluster_list_[cluster_list_size_ - 1]->timecode()
-            : frames_[0]->timestamp() / timecode_scale;
+    const Cluster* const last_cluster = cluster_list_[cluster_list_size_ - 1];
+    const uint64_t last_cluster_timecode = last_cluster->timecode();
 
     const uint64_t rel_timecode = frame_timecode - last_cluster_timecode;
     if (rel_timecode > kMaxBlockTimecode) {
@@ -3925,10 +3936,8 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
 
   uint64_t cluster_timecode = frame_timecode;
 
-  if (frames_size_ > 0) {
-    const Frame* const f = frames_[0];  // earliest queued frame
-    const uint64_t ns = f->timestamp();
-    const uint64_t tc = ns / timecode_scale;
+  for (int32_t i = 0; i < frames_size_; ++i) {
+    const uint64_t tc = frames_[i]->timestamp() / timecode_scale;
 
     if (tc < cluster_timecode)
       cluster_timecode = tc;
-- 
2.43.0


From dc2bb900fb154ea51ececd13f7703215b9d25d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:09 +0000
Subject: [PATCH 27/79] fix: estimate the duration of tracks with explicit
 numbers

---
 mkvmuxer/mkvmuxer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f24e766..8817dc3 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3262,15 +3262,16 @@ bool Segment::Finalize() {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
         const int num_tracks = static_cast<int>(tracks_.track_entries_size());
         for (int i = 0; i < num_tracks; ++i) {
-          if (track_frames_written_[i] < 2)
+          const uint64_t index = tracks_.GetTrackByIndex(i)->number() - 1;
+          if (track_frames_written_[index] < 2)
             continue;
 
           // Estimate the duration for the last block of a Track.
           const double nano_per_frame =
-              static_cast<double>(last_track_timestamp_[i]) /
-              (track_frames_written_[i] - 1);
+              static_cast<double>(last_track_timestamp_[index]) /
+              (track_frames_written_[index] - 1);
           const double track_duration =
-              (last_track_timestamp_[i] + nano_per_frame) /
+              (last_track_timestamp_[index] + nano_per_frame) /
               segment_info_.timecode_scale();
           if (track_duration > duration)
             duration = track_duration;
-- 
2.43.0


From 81c3995c040287daaf06e8d6aaeaccaf7d09a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 28/79] fix: report chunk files that could not be stored when
 closed

---
 mkvmuxer/mkvmuxer.cc  | 15 ++++++++++-----
 mkvmuxer/mkvwriter.cc |  6 ++++--
 mkvmuxer/mkvwriter.h  |  5 +++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 8817dc3..138ef99 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3249,7 +3249,8 @@ bool Segment::Finalize() {
 
   if (mode_ == kFile) {
     if (chunking_ && chunk_writer_cluster_) {
-      chunk_writer_cluster_->Close();
+      if (!chunk_writer_cluster_->Close())
+        return false;
       chunk_count_++;
     }
 
@@ -3350,8 +3351,10 @@ bool Segment::Finalize() {
       if (!chunk_writer_cues_ || !chunk_writer_header_)
         return false;
 
-      chunk_writer_cues_->Close();
-      chunk_writer_header_->Close();
+      const bool cues_closed = chunk_writer_cues_->Close();
+      const bool header_closed = chunk_writer_header_->Close();
+      if (!cues_closed || !header_closed)
+        return false;
     }
   }
 
@@ -3803,7 +3806,8 @@ bool Segment::WriteSegmentHeader() {
     if (!chunk_writer_header_)
       return false;
 
-    chunk_writer_header_->Close();
+    if (!chunk_writer_header_->Close())
+      return false;
   }
 
   header_written_ = true;
@@ -3923,7 +3927,8 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
     new_cuepoint_ = true;
 
   if (chunking_ && cluster_list_size_ > 0) {
-    chunk_writer_cluster_->Close();
+    if (!chunk_writer_cluster_->Close())
+      return false;
     chunk_count_++;
 
     if (!UpdateChunkName("chk", &chunk_name_))
diff --git a/mkvmuxer/mkvwriter.cc b/mkvmuxer/mkvwriter.cc
index 9b714a5..49b166f 100644
--- a/mkvmuxer/mkvwriter.cc
+++ b/mkvmuxer/mkvwriter.cc
@@ -54,11 +54,13 @@ bool MkvWriter::Open(const char* filename) {
   return true;
 }
 
-void MkvWriter::Close() {
+bool MkvWriter::Close() {
+  bool closed = true;
   if (file_ && writer_owns_file_) {
-    fclose(file_);
+    closed = fclose(file_) == 0;
   }
   file_ = NULL;
+  return closed;
 }
 
 int64 MkvWriter::Position() const {
diff --git a/mkvmuxer/mkvwriter.h b/mkvmuxer/mkvwriter.h
index 4227c63..6f26471 100644
--- a/mkvmuxer/mkvwriter.h
+++ b/mkvmuxer/mkvwriter.h
@@ -35,8 +35,9 @@ class MkvWriter : public IMkvWriter {
   // true on success.
   bool Open(const char* filename);
 
-  // Closes an opened file.
-  void Close();
+  // Closes an opened file. Returns false if data written to the file could not
+  // be stored.
+  bool Close();
 
  private:
   // File handle to output file.
-- 
2.43.0


From f64e628307fa73aff6a777a1f3abf167465f2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 29/79] fix: report write errors while copying clusters

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 138ef99..c71d4dc 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
-- 
2.43.0


From a4337e33ad1277220fd319aafd37a188623bde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:30 +0000
Subject: [PATCH 30/79] fix: do not move the cues of a segment without clusters

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index c71d4dc..6ce1172 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3192,7 +3192,7 @@ bool Segment::Init(IMkvWriter* ptr_writer) {
 
 bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
-  if (!writer->Seekable() || chunking_)
+  if (!writer->Seekable() || chunking_ || cluster_list_size_ < 1)
     return false;
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
-- 
2.43.0


From 9608545a497bf8a2434e534781b85c0e6615a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 31/79] fix: do not throw when a track has no codec id

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 6ce1172..cb59f8c 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4242,7 +4242,7 @@ bool Segment::DocTypeIsWebm() const {
   const int num_tracks = static_cast<int>(tracks_.track_entries_size());
   for (int track_index = 0; track_index < num_tracks; ++track_index) {
     const Track* const track = tracks_.GetTrackByIndex(track_index);
-    const std::string codec_id = track->codec_id();
+    const std::string codec_id = track->codec_id() ? track->codec_id() : "";
 
     bool id_is_webm = false;
     for (int id_index = 0; id_index < kNumCodecIds; ++id_index) {
-- 
2.43.0


From 1486c010ce30631542362e178828ff833ecd1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:43 +0000
Subject: [PATCH 32/79] fix: report chromaticities that could not be copied

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index cb59f8c..761b0ba 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -77,7 +77,7 @@ bool CopyChromaticity(const PrimaryChromaticity* src,
     return false;
 
   dst->reset(new (std::nothrow) PrimaryChromaticity(src->x(), src->y()));
-  if (!dst)
+  if (!*dst)
     return false;
 
   return true;
-- 
2.43.0


From 50042fc3c308e3e8b6373208e86ec4e522fb0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 33/79] fix: release replaced chromaticities and unused
 clusters

---
 mkvmuxer/mkvmuxer.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 761b0ba..990bed8 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1081,9 +1081,13 @@ bool MasteringMetadata::SetChromaticity(
       return false;
   }
 
+  delete r_;
   r_ = r_ptr.release();
+  delete g_;
   g_ = g_ptr.release();
+  delete b_;
   b_ = b_ptr.release();
+  delete white_point_;
   white_point_ = wp_ptr.release();
   return true;
 }
@@ -3960,8 +3964,11 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
   if (!cluster)
     return false;
 
-  if (!cluster->Init(writer_cluster_))
+  if (!cluster->Init(writer_cluster_)) {
+    delete cluster;
+    cluster = NULL;
     return false;
+  }
 
   cluster_list_size_ = new_size;
   return true;
-- 
2.43.0


From 88b452297930cee6e747b37104734032b500b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 34/79] fix: report a last live chunk that could not be stored

---
 mkvmuxer/mkvmuxer.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 990bed8..d4cc006 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3254,13 +3254,13 @@ bool Segment::Finalize() {
       return false;
   }
 
-  if (mode_ == kFile) {
-    if (chunking_ && chunk_writer_cluster_) {
-      if (!chunk_writer_cluster_->Close())
-        return false;
-      chunk_count_++;
-    }
+  if (chunking_ && chunk_writer_cluster_) {
+    if (!chunk_writer_cluster_->Close())
+      return false;
+    chunk_count_++;
+  }
 
+  if (mode_ == kFile) {
     double duration =
         (static_cast<double>(last_timestamp_) + last_block_duration_) /
         segment_info_.timecode_scale();
-- 
2.43.0


From 5165da764a704dc4eb706ea7a2de259c73d781dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:56 +0000
Subject: [PATCH 35/79] fix: treat every nonzero status of a writer as an error

---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..8276577 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
-- 
2.43.0


From d9fe1b83dc00fb7000ac2432b348014d322620a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:01 +0000
Subject: [PATCH 36/79] fix: a stream that ends after a cluster header has no
 more clusters

---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..8b2cf4e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6995,6 +6995,9 @@ long Cluster::HasBlockEntries(
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       return 0;  // no entries detected
 
+    if ((total >= 0) && (pos >= total))
+      return 0;  // the stream ends before the cluster has any entry
+
     if ((pos + 1) > avail) {
       len = 1;
       return E_BUFFER_NOT_FULL;
-- 
2.43.0


From 70a1fe51ec7306b04aac20cdb01bef9b5e5e4632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:35 +0000
Subject: [PATCH 37/79] fix: report a read error inside a block group instead
 of aborting

---
 mkvparser/mkvparser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8b2cf4e..1ba0c9d 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7239,8 +7239,8 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);  // TODO
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     pos += len;  // consume size
 
@@ -7265,7 +7265,6 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
       long long time;
 
       long status = UnserializeInt(pReader, pos, size_, time);
-      assert(status == 0);
       if (status != 0)
         return -1;
 
-- 
2.43.0


From 750ad183d42c6d127bc2d0df936c7fbab2fa50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:04 +0000
Subject: [PATCH 38/79] fix: do not walk released compression entries after a
 failed allocation

---
 mkvparser/mkvparser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 1ba0c9d..329a22b 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4250,6 +4250,7 @@ long ContentEncoding::ParseContentEncodingEntry(long long start, long long size,
     if (!encryption_entries_) {
       delete[] compression_entries_;
       compression_entries_ = NULL;
+      compression_entries_end_ = NULL;
       return -1;
     }
     encryption_entries_end_ = encryption_entries_;
-- 
2.43.0


From 2c91720004f5353d282e78f3fef2b5ec1a082ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:11 +0000
Subject: [PATCH 39/79] fix: report a read error inside a cue point instead of
 aborting

---
 mkvparser/mkvparser.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 329a22b..9049955 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2294,7 +2294,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2369,11 +2370,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
-- 
2.43.0


From a5da42d5ad7c63d826ac2b19a0a37a23a5f597ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:19 +0000
Subject: [PATCH 40/79] fix: report a read error in content compression and
 encryption settings

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9049955..e3ad270 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4347,7 +4347,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       // There should be only one settings element per content compression.
@@ -4408,7 +4408,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->key_id = buf;
@@ -4430,7 +4430,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->signature = buf;
@@ -4452,7 +4452,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->sig_key_id = buf;
-- 
2.43.0


From 82b0ecb848afb6e4f66f0147f69f0a17584bd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:26 +0000
Subject: [PATCH 41/79] fix: report a read error in the codec delay and seek
 pre-roll of a track

---
 mkvparser/mkvparser.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index e3ad270..8ef10e2 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5919,9 +5919,19 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
       if (status)
         return status;
     } else if (id == libwebm::kMkvCodecDelay) {
-      info.codecDelay = UnserializeUInt(pReader, pos, size);
+      const long long delay = UnserializeUInt(pReader, pos, size);
+
+      if (delay < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.codecDelay = static_cast<unsigned long long>(delay);
     } else if (id == libwebm::kMkvSeekPreRoll) {
-      info.seekPreRoll = UnserializeUInt(pReader, pos, size);
+      const long long pre_roll = UnserializeUInt(pReader, pos, size);
+
+      if (pre_roll < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.seekPreRoll = static_cast<unsigned long long>(pre_roll);
     }
 
     pos += size;  // consume payload
-- 
2.43.0


From e4bf91313f41cae76c91ac9390ed68709ed4ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:25 +0000
Subject: [PATCH 42/79] fix: do not take a read error for a value of a content
 encoding

---
 mkvparser/mkvparser.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8ef10e2..f331307 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4266,13 +4266,20 @@ long ContentEncoding::ParseContentEncodingEntry(long long start, long long size,
       return status;
 
     if (id == libwebm::kMkvContentEncodingOrder) {
-      encoding_order_ = UnserializeUInt(pReader, pos, size);
+      const long long order = UnserializeUInt(pReader, pos, size);
+      if (order < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_order_ = order;
     } else if (id == libwebm::kMkvContentEncodingScope) {
-      encoding_scope_ = UnserializeUInt(pReader, pos, size);
-      if (encoding_scope_ < 1)
+      const long long scope = UnserializeUInt(pReader, pos, size);
+      if (scope < 1)
         return -1;
+      encoding_scope_ = scope;
     } else if (id == libwebm::kMkvContentEncodingType) {
-      encoding_type_ = UnserializeUInt(pReader, pos, size);
+      const long long type = UnserializeUInt(pReader, pos, size);
+      if (type < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_type_ = type;
     } else if (id == libwebm::kMkvContentCompression) {
       ContentCompression* const compression =
           new (std::nothrow) ContentCompression();
@@ -4458,9 +4465,15 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->sig_key_id = buf;
       encryption->sig_key_id_len = buflen;
     } else if (id == libwebm::kMkvContentSigAlgo) {
-      encryption->sig_algo = UnserializeUInt(pReader, pos, size);
+      const long long sig_algo = UnserializeUInt(pReader, pos, size);
+      if (sig_algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_algo = sig_algo;
     } else if (id == libwebm::kMkvContentSigHashAlgo) {
-      encryption->sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      const long long sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      if (sig_hash_algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_hash_algo = sig_hash_algo;
     } else if (id == libwebm::kMkvContentEncAESSettings) {
       const long status = ParseContentEncAESSettingsEntry(
           pos, size, pReader, &encryption->aes_settings);
-- 
2.43.0


From 5dbafe290ecdb1f5195134ab97de4ac92aa64375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 43/79] fix: continue parsing after a preloaded cluster

Segment::ParseNext() read the cluster ID with ReadUInt(), which strips the
length marker, so it never matched and every call failed.
---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index f331307..4847771 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2771,7 +2771,7 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     if ((pos + len) > avail)
       return E_BUFFER_NOT_FULL;
 
-    const long long id = ReadUInt(m_pReader, pos, len);
+    const long long id = ReadID(m_pReader, pos, len);
 
     if (id != libwebm::kMkvCluster)
       return -1;
-- 
2.43.0


From 9c6d4d12701a7bc2d28ce615e93ae9f0983f40d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:15 +0000
Subject: [PATCH 44/79] fix: keep the parse position while searching preloaded
 clusters

Segment::DoParseNext() overwrote the position it had parsed up to with that
of a preloaded cluster, so an empty cluster in between made the search for
the next cluster go on from the wrong place.
---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 4847771..6314ca6 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3011,12 +3011,12 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
     assert(pNext);
     assert(pNext->m_index < 0);
 
-    pos = pNext->GetPosition();
-    assert(pos >= 0);
+    const long long pos_next = pNext->GetPosition();
+    assert(pos_next >= 0);
 
-    if (pos < off_next)
+    if (pos_next < off_next)
       i = k + 1;
-    else if (pos > off_next)
+    else if (pos_next > off_next)
       j = k;
     else {
       pResult = pNext;
-- 
2.43.0


From a2b5ec8967c1447486b2f3a91e9d1bbacce6762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:57 +0000
Subject: [PATCH 45/79] fix: a cluster whose entry array could not be allocated
 can be parsed again

The array size was set before the allocation succeeded, so the next
attempt failed an assertion.
---
 mkvparser/mkvparser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 6314ca6..8ed7833 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7192,11 +7192,12 @@ long Cluster::CreateBlock(long long id,
     assert(m_entries == NULL);
     assert(m_entries_size == 0);
 
-    m_entries_size = 1024;
-    m_entries = new (std::nothrow) BlockEntry*[m_entries_size];
+    const long entries_size = 1024;
+    m_entries = new (std::nothrow) BlockEntry*[entries_size];
     if (m_entries == NULL)
       return -1;
 
+    m_entries_size = entries_size;
     m_entries_count = 0;
   } else {
     assert(m_entries);
-- 
2.43.0


From 1bde8e22eb2f4e0626a9e4aedb3040de26eba5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:03 +0000
Subject: [PATCH 46/79] fix: report errors and missing data during a seek
 instead of aborting

Track::Seek() and Cluster::GetEntry() asserted that every loaded cluster can
be parsed, which does not hold when its data has not arrived or a read
fails, and took the error code for a time.
---
 mkvparser/mkvparser.cc | 43 ++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8ed7833..df8617e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4897,6 +4897,9 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
 
     const long long t = pCluster->GetTime();
 
+    if (t < 0)  // error or underflow
+      return static_cast<long>(t);
+
     if (t <= time_ns)
       lo = mid + 1;
     else
@@ -4916,7 +4919,15 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
 
     pResult = pCluster->GetEntry(this);
 
-    if ((pResult != 0) && !pResult->EOS())
+    if (pResult == NULL) {  // error or underflow
+      long long pos;
+      long len;
+
+      const long parse_status = pCluster->Parse(pos, len);
+      return (parse_status < 0) ? parse_status : E_PARSE_FAILED;
+    }
+
+    if (!pResult->EOS())
       return 0;
 
     // landed on empty cluster (no entries)
@@ -5525,6 +5536,9 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
 
     const long long t = pCluster->GetTime();
 
+    if (t < 0)  // error or underflow
+      return static_cast<long>(t);
+
     if (t <= time_ns)
       lo = mid + 1;
     else
@@ -5541,20 +5555,26 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   assert(pCluster);
   assert(pCluster->GetTime() <= time_ns);
 
-  pResult = pCluster->GetEntry(this, time_ns);
+  for (;;) {
+    pResult = pCluster->GetEntry(this, time_ns);
 
-  if ((pResult != 0) && !pResult->EOS())  // found a keyframe
-    return 0;
+    if (pResult == NULL) {  // error or underflow
+      long long pos;
+      long len;
+
+      const long parse_status = pCluster->Parse(pos, len);
+      return (parse_status < 0) ? parse_status : E_PARSE_FAILED;
+    }
+
+    if (!pResult->EOS())  // found a keyframe
+      return 0;
+
+    if (lo == i)
+      break;
 
-  while (lo != i) {
     pCluster = *--lo;
     assert(pCluster);
     assert(pCluster->GetTime() <= time_ns);
-
-    pResult = pCluster->GetEntry(this, time_ns);
-
-    if ((pResult != 0) && !pResult->EOS())
-      return 0;
   }
 
   // weird: we're on the first cluster, but no keyframe found
@@ -7483,12 +7503,11 @@ const BlockEntry* Cluster::GetEntry(const Track* pTrack,
       long len;
 
       const long status = Parse(pos, len);
-      assert(status >= 0);
 
       if (status > 0)  // completely parsed, and no more entries
         return pResult;
 
-      if (status < 0)  // should never happen
+      if (status < 0)  // error or underflow
         return 0;
 
       assert(m_entries);
-- 
2.43.0


From 5fb91af31dab5b9c2626d49e15a87e794d69d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:09 +0000
Subject: [PATCH 47/79] fix: do not search clusters by an error code instead of
 their time

Segment::FindCluster() used the negative error code of a cluster whose
header cannot be read as its time, and could end up before the first
cluster.
---
 mkvparser/mkvparser.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index df8617e..84ee0a7 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3175,7 +3175,12 @@ const Cluster* Segment::FindCluster(long long time_ns) const {
     assert(pCluster);
     assert(pCluster->m_index == 0);
 
-    if (time_ns <= pCluster->GetTime())
+    const long long t = pCluster->GetTime();
+
+    if (t < 0)  // error or underflow
+      return &m_eos;
+
+    if (time_ns <= t)
       return pCluster;
   }
 
@@ -3199,6 +3204,9 @@ const Cluster* Segment::FindCluster(long long time_ns) const {
 
     const long long t = pCluster->GetTime();
 
+    if (t < 0)  // error or underflow
+      return &m_eos;
+
     if (t <= time_ns)
       i = k + 1;
     else
-- 
2.43.0


From 176ab60efe8403d1a4bc2a838ff9e08e48cea7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:13 +0000
Subject: [PATCH 48/79] fix: report cues that could not be allocated while
 looking for the next cluster

Segment::DoParseNext() returned false, which means success without a
cluster.
---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 84ee0a7..1d3f382 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2954,7 +2954,7 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
         m_pCues = new (std::nothrow)
             Cues(this, pos, size, element_start, element_size);
         if (m_pCues == NULL)
-          return false;
+          return -1;
       }
 
       pos += size;  // consume payload
-- 
2.43.0


From b0bc6109dfc2aeb0447b336fdb507f19d82479bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:39 +0000
Subject: [PATCH 49/79] fix: do not abort when walking on from a preloaded
 cluster

Segment::GetNext() asserted that the segment size is known and that every
read succeeds. Find the next cluster with ParseNext(), which handles both.
---
 mkvparser/mkvparser.cc | 144 ++---------------------------------------
 1 file changed, 5 insertions(+), 139 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 1d3f382..5b8734b 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2551,148 +2551,14 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
   assert(m_clusterPreloadCount > 0);
 
-  long long pos = pCurr->m_element_start;
-
-  assert(m_size >= 0);  // TODO
-  const long long stop = m_start + m_size;  // end of segment
-
-  {
-    long len;
-
-    long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
-      return NULL;
-
-    const long long id = ReadID(m_pReader, pos, len);
-    if (id != libwebm::kMkvCluster)
-      return NULL;
-
-    pos += len;  // consume ID
-
-    // Read Size
-    result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
-
-    const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size > 0);  // TODO
-    // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
-
-    pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
-
-    // Pos now points to start of payload
-
-    pos += size;  // consume payload
-  }
-
-  long long off_next = 0;
-
-  while (pos < stop) {
-    long len;
-
-    long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
-      return NULL;
-
-    const long long idpos = pos;  // pos of next (potential) cluster
-
-    const long long id = ReadID(m_pReader, idpos, len);
-    if (id < 0)
-      return NULL;
-
-    pos += len;  // consume ID
-
-    // Read Size
-    result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
-
-    const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size >= 0);  // TODO
-
-    pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
-
-    // Pos now points to start of payload
-
-    if (size == 0)  // weird
-      continue;
-
-    if (id == libwebm::kMkvCluster) {
-      const long long off_next_ = idpos - m_start;
-
-      long long pos_;
-      long len_;
-
-      const long status = Cluster::HasBlockEntries(this, off_next_, pos_, len_);
-
-      assert(status >= 0);
-
-      if (status > 0) {
-        off_next = off_next_;
-        break;
-      }
-    }
-
-    pos += size;  // consume payload
-  }
-
-  if (off_next <= 0)
-    return 0;
-
-  Cluster** const ii = m_clusters + m_clusterCount;
-  Cluster** i = ii;
-
-  Cluster** const jj = ii + m_clusterPreloadCount;
-  Cluster** j = jj;
-
-  while (i < j) {
-    // INVARIANT:
-    //[0, i) < pos_next
-    //[i, j) ?
-    //[j, jj)  > pos_next
-
-    Cluster** const k = i + (j - i) / 2;
-    assert(k < jj);
-
-    Cluster* const pNext = *k;
-    assert(pNext);
-    assert(pNext->m_index < 0);
-
-    // const long long pos_ = pNext->m_pos;
-    // assert(pos_);
-    // pos = pos_ * ((pos_ < 0) ? -1 : 1);
-
-    pos = pNext->GetPosition();
-
-    if (pos < off_next)
-      i = k + 1;
-    else if (pos > off_next)
-      j = k;
-    else
-      return pNext;
-  }
-
-  assert(i == j);
-
-  Cluster* const pNext = Cluster::Create(this, -1, off_next);
-  if (pNext == NULL)
-    return NULL;
+  const Cluster* pNext;
+  long long pos;
+  long len;
 
-  const ptrdiff_t idx_next = i - m_clusters;  // insertion position
+  const long status = ParseNext(pCurr, pNext, pos, len);
 
-  if (!PreloadCluster(pNext, idx_next)) {
-    delete pNext;
+  if (status != 0)  // error, underflow, or no more clusters
     return NULL;
-  }
-  assert(m_clusters);
-  assert(idx_next < m_clusterSize);
-  assert(m_clusters[idx_next] == pNext);
 
   return pNext;
 }
-- 
2.43.0


From 8f4fdb130d7e64d3c438ea65e1ad492f9a2dc7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:22 +0000
Subject: [PATCH 50/79] fix: seek in tracks whose blocks precede the time of
 their cluster

Blocks may have times before that of their cluster. Seeking between the two
failed an assertion or read in front of the cluster array.
---
 mkvparser/mkvparser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 5b8734b..719ead1 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4748,7 +4748,6 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -4783,13 +4782,14 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  if (lo == i)  // the first block precedes the time of its cluster
+    return 0;
+
   while (lo > i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this);
 
@@ -5387,7 +5387,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -5422,9 +5421,11 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  if (lo == i)  // the first block precedes the time of its cluster
+    return 0;
+
   pCluster = *--lo;
   assert(pCluster);
   assert(pCluster->GetTime() <= time_ns);
@@ -5448,7 +5449,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
 
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
   }
 
   // weird: we're on the first cluster, but no keyframe found
-- 
2.43.0


From 296d47c6fd4218be7eca854f9248fb6f7ae9e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:01 +0000
Subject: [PATCH 51/79] fix: report seek errors of MkvReader

Read() ignored a failed seek and delivered bytes from another position as a
success; Open() took a file that cannot be measured for an empty one or
aborted.
---
 mkvparser/mkvreader.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 4672604..2108b6e 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -13,9 +13,11 @@
 
 namespace mkvparser {
 
-MkvReader::MkvReader() : m_file(NULL), reader_owns_file_(true) {}
+MkvReader::MkvReader()
+    : m_length(0), m_file(NULL), reader_owns_file_(true) {}
 
-MkvReader::MkvReader(FILE* fp) : m_file(fp), reader_owns_file_(false) {
+MkvReader::MkvReader(FILE* fp)
+    : m_length(0), m_file(fp), reader_owns_file_(false) {
   GetFileSize();
 }
 
@@ -57,13 +59,16 @@ bool MkvReader::GetFileSize() {
 
   m_length = _ftelli64(m_file);
 #else
-  fseek(m_file, 0L, SEEK_END);
+  if (fseek(m_file, 0L, SEEK_END))
+    return false;  // error
+
   m_length = ftell(m_file);
 #endif
-  assert(m_length >= 0);
 
-  if (m_length < 0)
+  if (m_length < 0) {
+    m_length = 0;
     return false;
+  }
 
 #ifdef _MSC_VER
   status = _fseeki64(m_file, 0L, SEEK_SET);
@@ -71,7 +76,8 @@ bool MkvReader::GetFileSize() {
   if (status)
     return false;  // error
 #else
-  fseek(m_file, 0L, SEEK_SET);
+  if (fseek(m_file, 0L, SEEK_SET))
+    return false;  // error
 #endif
 
   return true;
@@ -119,15 +125,18 @@ int MkvReader::Read(long long offset, long len, unsigned char* buffer) {
   if (status)
     return -1;  // error
 #elif defined(_WIN32)
-  fseeko64(m_file, static_cast<off_t>(offset), SEEK_SET);
+  if (fseeko64(m_file, static_cast<off_t>(offset), SEEK_SET))
+    return -1;  // error
 #elif !(defined(__ANDROID__) && __ANDROID_API__ < 24 && !defined(__LP64__) && \
         defined(_FILE_OFFSET_BITS) && _FILE_OFFSET_BITS == 64)
   // POSIX.1 has fseeko and ftello. fseeko and ftello are not available before
   // Android API level 24. See
   // https://android.googlesource.com/platform/bionic/+/main/docs/32-bit-abi.md
-  fseeko(m_file, static_cast<off_t>(offset), SEEK_SET);
+  if (fseeko(m_file, static_cast<off_t>(offset), SEEK_SET))
+    return -1;  // error
 #else
-  fseek(m_file, static_cast<long>(offset), SEEK_SET);
+  if (fseek(m_file, static_cast<long>(offset), SEEK_SET))
+    return -1;  // error
 #endif
 
   const size_t size = fread(buffer, 1, len, m_file);
-- 
2.43.0


From f8fdaeb330cfddee603d3dfeea147a674fab4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 52/79] fix: convert the video track by its number, not by its
 index

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..507a46d 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -400,7 +400,7 @@ bool Webm2Pes::InitWebmParser() {
         fprintf(stderr, "Webm2Pes: Codec must be VP8 or VP9.\n");
         return false;
       }
-      video_track_num_ = track_index + 1;
+      video_track_num_ = static_cast<int>(track->GetNumber());
       break;
     }
   }
-- 
2.43.0


From 5149a01b4759104cbd6be6b1e8e9b82c9e357cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 53/79] fix: keep the middle bits of a PES time stamp out of
 its low bits

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 507a46d..215bc5b 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From e89ebdca29a8d9a2c9eaaab05539a9c39a0148ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 54/79] fix: report output that could not be written when
 converting to PES or TS

---
 m2ts/vpxpes2ts.cc | 9 ++++++++-
 m2ts/webm2pes.cc  | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..8140dfd 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -139,7 +139,14 @@ bool VpxPes2Ts::ConvertToFile() {
     std::fprintf(stderr, "VpxPes2Ts: Out of memory.\n");
     return false;
   }
-  return pes_converter_->ConvertToPacketReceiver();
+  if (pes_converter_->ConvertToPacketReceiver() != true)
+    return false;
+
+  if (std::fclose(output_file_.release()) != 0) {
+    std::fprintf(stderr, "VpxPes2Ts: TS packet write failed.\n");
+    return false;
+  }
+  return true;
 }
 
 bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 215bc5b..160a898 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -284,7 +284,10 @@ bool Webm2Pes::ConvertToFile() {
     cluster = webm_parser_->GetNext(cluster);
   }
 
-  std::fflush(output_file_.get());
+  if (std::fclose(output_file_.release()) != 0) {
+    std::fprintf(stderr, "Webm2Pes: packet payload write failed.\n");
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 8a35cb7ffe91681e82f915249fac3b2a2b6a209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 55/79] fix: count TS packets without gaps from frame to frame

---
 m2ts/vpxpes2ts.cc | 8 ++------
 m2ts/vpxpes2ts.h  | 4 ++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 8140dfd..155b78c 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -154,15 +154,11 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.reserve(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
-
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
     int payload_size = std::min(bytes_to_packetize, kTsPayloadSize);
@@ -170,7 +166,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -202,7 +198,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_ = (continuity_counter_ + 1) & 0xf;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..436f25f 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -8,6 +8,7 @@
 #ifndef LIBWEBM_M2TS_VPXPES2TS_H_
 #define LIBWEBM_M2TS_VPXPES2TS_H_
 
+#include <cstdint>
 #include <memory>
 #include <string>
 
@@ -38,6 +39,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Continuity counter of the next TS packet.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From 2d84f08cfd2191c5feee79f17ac12d0ea0053cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 56/79] fix: size the TS packet buffer before writing into it

---
 m2ts/vpxpes2ts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 155b78c..a0292dc 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -156,7 +156,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   int bytes_to_packetize = static_cast<int>(packet_data.size());
   std::size_t read_pos = 0;
 
-  ts_buffer_.reserve(kTsPacketSize);
+  ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
     // Calculate payload size (need to know if we'll have to pad with an empty
-- 
2.43.0


From 7644b25d3ecc9c681b6b7d5b2e8db79304b78fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 57/79] fix: do not read past the end of a truncated PES stream

---
 m2ts/vpxpes_parser.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..c496652 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -60,7 +60,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 3 > pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
@@ -128,9 +128,9 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
 
   std::size_t consumed = 0;
   PacketData poh_buffer;
-  if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
-                                               kPesOptionalHeaderSize,
-                                               &poh_buffer, &consumed)) {
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          pes_file_data_.data() + read_pos_, kPesOptionalHeaderSize,
+          &poh_buffer, &consumed)) {
     return false;
   }
 
@@ -202,9 +202,9 @@ bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
 
   PacketData bcmv_buffer;
   std::size_t consumed = 0;
-  if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
-                                               kBcmvHeaderSize, &bcmv_buffer,
-                                               &consumed)) {
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          pes_file_data_.data() + read_pos_, kBcmvHeaderSize, &bcmv_buffer,
+          &consumed)) {
     return false;
   }
 
@@ -288,9 +288,9 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
-    if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
-                                                 fragment_length, &payload_,
-                                                 &consumed)) {
+    if (!RemoveStartCodeEmulationPreventionBytes(
+            pes_file_data_.data() + read_pos_, fragment_length, &payload_,
+            &consumed)) {
       return false;
     }
     read_pos_ += consumed;
@@ -310,7 +310,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
       &pes_file_data_[0] + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
@@ -362,6 +362,8 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   }
 
   // BCMV header length includes the length of the BCMVHeader itself. Adjust:
+  if (header->bcmv_header.length <= BcmvHeader::size())
+    return false;
   const std::size_t payload_length =
       header->bcmv_header.length - BcmvHeader::size();
 
@@ -384,7 +386,8 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   } else {
     std::size_t consumed = 0;
     if (!RemoveStartCodeEmulationPreventionBytes(
-            &pes_file_data_[read_pos_], payload_length, &payload_, &consumed)) {
+            pes_file_data_.data() + read_pos_, payload_length, &payload_,
+            &consumed)) {
       return false;
     }
     read_pos_ += consumed;
-- 
2.43.0


From 5386b1bdf8fbb2ca5a517ea887efb92a8f836b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 58/79] fix: remove every start code emulation prevention byte
 from PES frames

---
 m2ts/vpxpes_parser.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index c496652..faf0003 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -263,10 +263,13 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
-  for (std::size_t i = 0; i < first_fragment_length; ++i) {
-    payload_.push_back(pes_file_data_[read_pos_ + i]);
+  std::size_t first_fragment_consumed = 0;
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          pes_file_data_.data() + read_pos_, first_fragment_length, &payload_,
+          &first_fragment_consumed)) {
+    return false;
   }
-  read_pos_ += first_fragment_length;
+  read_pos_ += first_fragment_consumed;
   parse_state_ = kFindStartCode;
 
   while (payload_.size() < payload_length) {
@@ -318,7 +321,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From 00826c752fcc4ab8ce273c285db239c6d4b65b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 59/79] fix: keep all 33 bits of a PES time stamp

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index faf0003..60c432b 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -176,7 +176,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
       return false;
     }
 
-    header->pts = (poh_buffer[offset] & 0xe) << 29 |
+    header->pts = static_cast<std::uint64_t>(poh_buffer[offset] & 0xe) << 29 |
                   ((ReadUint16(&poh_buffer[offset + 1]) & ~1) << 14) |
                   (ReadUint16(&poh_buffer[offset + 3]) >> 1);
     offset += 5;
-- 
2.43.0


From 98b4cf06bd68872f773c80e6160f711732cf6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 60/79] fix: report a PES file that cannot be opened

---
 m2ts/vpxpes_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 60c432b..3ce7f24 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -44,6 +44,8 @@ bool VpxPesParser::Open(const std::string& pes_file) {
   pes_file_data_.reserve(static_cast<size_t>(pes_file_size_));
   libwebm::FilePtr file = libwebm::FilePtr(std::fopen(pes_file.c_str(), "rb"),
                                            libwebm::FILEDeleter());
+  if (file == nullptr)
+    return false;
   int byte;
   while ((byte = fgetc(file.get())) != EOF) {
     pes_file_data_.push_back(static_cast<std::uint8_t>(byte));
-- 
2.43.0


From 95203271f842d2271ab1bd3d88da940d4254e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 61/79] fix: do not prepend a frame that could not be stored to
 the next one

---
 m2ts/vpxpes_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 3ce7f24..fd26a69 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -349,6 +349,9 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
     return false;
   }
 
+  // Discard what a packet that could not be stored has left behind.
+  payload_.clear();
+
   std::size_t packet_start_pos = read_pos_;
   if (!FindStartCode(read_pos_, &packet_start_pos)) {
     return false;
-- 
2.43.0


From e62e4940be1f4c883fc4f43d544b0fab905725af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 62/79] fix: read the fraction of WebVTT times by its number of
 digits

---
 webvtt/webvttparser.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index c79d642..3792fc0 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -476,20 +476,30 @@ int Parser::ParseTime(const std::string& line, std::string::size_type* idx_ptr,
   } else {
     ++idx;  // consume FULL STOP
 
+    const std::string::size_type frac_idx = idx;
+
     val = ParseNumber(line, &idx);
 
     if (val < 0)
       return val;
 
-    if (val >= 1000)
-      return -1;
+    // The number of digits tells how much the value is worth.
+    switch (idx - frac_idx) {
+      case 1:
+        t.milliseconds = val * 100;
+        break;
+
+      case 2:
+        t.milliseconds = val * 10;
+        break;
 
-    if (val < 10)
-      t.milliseconds = val * 100;
-    else if (val < 100)
-      t.milliseconds = val * 10;
-    else
-      t.milliseconds = val;
+      case 3:
+        t.milliseconds = val;
+        break;
+
+      default:
+        return -1;
+    }
   }
 
   // We have parsed the time proper.  We must check for any
-- 
2.43.0


From 56360be67ff9a5efd68c2d066654149ac5a701a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 63/79] fix: convert WebVTT times above 24 days without
 overflow

---
 webvtt/webvttparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index 3792fc0..e9fa144 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -680,7 +680,7 @@ Time& Time::presentation(presentation_t d) {
   }
 
   seconds = static_cast<int>(d / 1000);
-  milliseconds = static_cast<int>(d - 1000 * seconds);
+  milliseconds = static_cast<int>(d - 1000LL * seconds);
 
   minutes = seconds / 60;
   seconds -= 60 * minutes;
-- 
2.43.0


From fdfedc165818b61e0dadfc816db444124d871422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 64/79] fix: report WebVTT output that vttdemux could not write

---
 vttdemux.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/vttdemux.cc b/vttdemux.cc
index 186783b..122fdc9 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -164,8 +164,9 @@ void BuildMap(const mkvparser::Segment* segment, metadata_map_t* metadata_map);
 // Returns false if we were unable to open an output file for a track.
 bool OpenFiles(metadata_map_t* metadata_map, const char* filename);
 
-// Close the file handle for each track in the cache.
-void CloseFiles(metadata_map_t* metadata_map);
+// Close the file handle for each track in the cache.  Returns false if the
+// output could not be flushed to a file.
+bool CloseFiles(metadata_map_t* metadata_map);
 
 // Iterate over the clusters of the input file, and write a WebVTT cue
 // for each metadata block.  Returns false if processing of a cluster
@@ -505,9 +506,11 @@ bool vttdemux::OpenFiles(metadata_map_t* metadata_map, const char* filename) {
   return true;
 }
 
-void vttdemux::CloseFiles(metadata_map_t* metadata_map) {
+bool vttdemux::CloseFiles(metadata_map_t* metadata_map) {
   if (metadata_map == NULL)
-    return;
+    return false;
+
+  bool success = true;
 
   metadata_map_t& m = *metadata_map;
 
@@ -524,16 +527,20 @@ void vttdemux::CloseFiles(metadata_map_t* metadata_map) {
     MetadataInfo& info = v.second;
 
     if (info.file != NULL) {
-      fclose(info.file);
+      if (fclose(info.file) != 0)
+        success = false;
       info.file = NULL;
     }
   }
+
+  return success;
 }
 
 bool vttdemux::WriteFiles(const metadata_map_t& m, mkvparser::Segment* s) {
   // First write the WebVTT header.
 
-  InitializeFiles(m);
+  if (!InitializeFiles(m))
+    return false;
 
   if (!WriteChaptersFile(m, s))
     return false;
@@ -998,7 +1005,10 @@ int main(int argc, const char* argv[]) {
     return EXIT_FAILURE;
   }
 
-  CloseFiles(&metadata_map);
+  if (!CloseFiles(&metadata_map)) {
+    printf("unable to write output file\n");
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From bc340afd37df2632885d716471e6c15266323eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 65/79] fix: write chapters that have no identifier

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index d4cc006..95bbe2d 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2016,7 +2016,7 @@ uint64_t Chapter::WriteAtom(IMkvWriter* writer) const {
   if (!WriteEbmlMasterElement(writer, libwebm::kMkvChapterAtom, payload_size))
     return 0;
 
-  if (!WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
+  if (id_ && !WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
     return 0;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvChapterUID,
-- 
2.43.0


From fd5b1c93edc58d044630a1de6c1b587a0321ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 66/79] fix: report output of mkvmuxer_sample that could not be
 written

---
 mkvmuxer_sample.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 9be2ff9..c722f3c 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -776,7 +776,10 @@ int main(int argc, char* argv[]) {
   }
 
   reader.Close();
-  writer.Close();
+  if (!writer.Close()) {
+    printf("\n Error writing the output file.\n");
+    return EXIT_FAILURE;
+  }
 
   if (cues_before_clusters) {
     if (reader.Open(temp_file.c_str())) {
@@ -792,7 +795,10 @@ int main(int argc, char* argv[]) {
       return EXIT_FAILURE;
     }
     reader.Close();
-    writer.Close();
+    if (!writer.Close()) {
+      printf("\n Error writing the output file.\n");
+      return EXIT_FAILURE;
+    }
     remove(temp_file.c_str());
   }
 
-- 
2.43.0


From 811c3d2cec6721c7de2bff11f7c153665b0cc239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:33 +0000
Subject: [PATCH 67/79] fix: report chunk files that mkvmuxer_sample could not
 open

---
 mkvmuxer_sample.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index c722f3c..742a723 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -385,8 +385,10 @@ int main(int argc, char* argv[]) {
   else
     muxer_segment.set_mode(mkvmuxer::Segment::kFile);
 
-  if (chunking)
-    muxer_segment.SetChunking(true, chunk_name);
+  if (chunking && !muxer_segment.SetChunking(true, chunk_name)) {
+    printf("\n Could not set up chunked output.\n");
+    return EXIT_FAILURE;
+  }
 
   if (max_cluster_duration > 0)
     muxer_segment.set_max_cluster_duration(max_cluster_duration);
-- 
2.43.0


From 8866a67bc0e069ccf74c7cf6a92db4d15d750f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:55 +0000
Subject: [PATCH 68/79] fix: swap the middle bytes of 32-bit values

---
 common/webm_endian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/webm_endian.cc b/common/webm_endian.cc
index b1ef7ca..6cf6afd 100644
--- a/common/webm_endian.cc
+++ b/common/webm_endian.cc
@@ -31,8 +31,8 @@ uint32_t swap32_check_little_endian(uint32_t value) {
   if (check.c[0] != 0x67)
     return 0;
 
-  return value << 24 | ((value << 8) & 0x0000FF00U) |
-         ((value >> 8) & 0x00FF0000U) | value >> 24;
+  return value << 24 | ((value << 8) & 0x00FF0000U) |
+         ((value >> 8) & 0x0000FF00U) | value >> 24;
 }
 
 // Swaps unsigned 64 bit values to big endian if needed. Returns |value|
-- 
2.43.0


From 344a895283171148dd2bade8a2526a0557b0a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:10 +0000
Subject: [PATCH 69/79] fix: do not loop forever over damaged cues in the
 sample programs

---
 mkvparser_sample.cc | 6 ++++--
 webm_info.cc        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index f285c3e..f4acdcd 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -44,8 +44,10 @@ bool InputHasCues(const mkvparser::Segment* const segment) {
   if (cues == NULL)
     return false;
 
-  while (!cues->DoneParsing())
-    cues->LoadCuePoint();
+  while (!cues->DoneParsing()) {
+    if (!cues->LoadCuePoint())
+      break;  // damaged or unreadable Cues
+  }
 
   const mkvparser::CuePoint* const cue_point = cues->GetFirst();
   if (cue_point == NULL)
diff --git a/webm_info.cc b/webm_info.cc
index e0ac153..be9f4b5 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -1076,8 +1076,10 @@ bool OutputCues(const mkvparser::Segment& segment,
     return true;
 
   // Load all of the cue points.
-  while (!cues->DoneParsing())
-    cues->LoadCuePoint();
+  while (!cues->DoneParsing()) {
+    if (!cues->LoadCuePoint())
+      break;  // damaged or unreadable Cues
+  }
 
   // Confirm that the input has cue points.
   const mkvparser::CuePoint* const first_cue = cues->GetFirst();
-- 
2.43.0


From 5f07aed2925a60bf64c1557443535f6173dbf6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:47 +0000
Subject: [PATCH 70/79] fix: report a cluster that webm_info could not read

---
 webm_info.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/webm_info.cc b/webm_info.cc
index be9f4b5..e409d30 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -855,6 +855,13 @@ bool OutputCluster(const mkvparser::Cluster& cluster,
   }
 
   if (options.output_clusters) {
+    // Parse all of the Cluster before asking for its times.
+    const mkvparser::BlockEntry* last_entry;
+    if (cluster.GetLast(last_entry) < 0) {
+      fprintf(stderr, "Could not get last Block of Cluster.\n");
+      return false;
+    }
+
     const int64_t time_ns = cluster.GetTime();
     const int64_t duration_ns = cluster.GetLastTime() - cluster.GetFirstTime();
 
-- 
2.43.0


From 313d0bf3e090c722d4268deb2a0e1a0e69dd0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 71/79] fix: report a cluster that mkvparser_sample could not
 read

---
 mkvparser_sample.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index f4acdcd..64dc896 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -356,6 +356,12 @@ int main(int argc, char* argv[]) {
 
   while (pCluster != NULL && !pCluster->EOS()) {
     const long long timeCode = pCluster->GetTimeCode();
+    if (timeCode < 0)  // error
+    {
+      printf("\t\tError parsing cluster\n");
+      fflush(stdout);
+      return EXIT_FAILURE;
+    }
     printf("\t\tCluster Time Code\t: %lld\n", timeCode);
 
     const long long time_ns = pCluster->GetTime();
-- 
2.43.0


From b793a7edd074fb6849b2debda414da5579d210d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:36 +0000
Subject: [PATCH 72/79] fix: report times that do not fit as unknown instead of
 overflowing

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 719ead1..8506512 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2475,6 +2475,10 @@ long long CuePoint::GetTime(const Segment* pSegment) const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if scale * m_timecode would overflow.
+  if (m_timecode != 0 && scale > LLONG_MAX / m_timecode)
+    return -1;
+
   const long long time = scale * m_timecode;
 
   return time;
@@ -3460,6 +3464,10 @@ long long Chapters::Atom::GetTime(const Chapters* pChapters,
   if (timecode < 0)
     return -1;
 
+  // Check if timecode_scale * timecode would overflow.
+  if (timecode != 0 && timecode_scale > LLONG_MAX / timecode)
+    return -1;
+
   const long long result = timecode_scale * timecode;
 
   return result;
@@ -7037,6 +7045,10 @@ long long Cluster::GetTime() const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if m_timecode * scale would overflow.
+  if (m_timecode != 0 && scale > LLONG_MAX / m_timecode)
+    return -1;
+
   const long long t = m_timecode * scale;
 
   return t;
-- 
2.43.0


From 80dadd0fe4c76b882b0b75a6cad6973a5edb74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 73/79] fix: webm_info prints absent VP9 codec features as
 2147483647

---
 webm_info.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index e409d30..127dba6 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -387,16 +387,20 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
             fprintf(stderr, "Error parsing VpxCodecPrivate.\n");
             return false;
           }
-          if (features.profile != -1)
+          if (features.profile !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 profile            : %d\n",
                     indent->indent_str().c_str(), features.profile);
-          if (features.level != -1)
+          if (features.level !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 level              : %d\n",
                     indent->indent_str().c_str(), features.level);
-          if (features.bit_depth != -1)
+          if (features.bit_depth !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 bit_depth          : %d\n",
                     indent->indent_str().c_str(), features.bit_depth);
-          if (features.chroma_subsampling != -1)
+          if (features.chroma_subsampling !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 chroma subsampling : %d\n",
                     indent->indent_str().c_str(), features.chroma_subsampling);
         }
-- 
2.43.0


From df8aaef52549030c05a48f7d01f8f8923dd1120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:08 +0000
Subject: [PATCH 74/79] fix: mkvparser_sample prints the projection roll as
 pitch

---
 mkvparser_sample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index 64dc896..f3fcaca 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -317,7 +317,7 @@ int main(int argc, char* argv[]) {
         if (projection->pose_pitch != mkvparser::Projection::kValueNotPresent)
           printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_pitch);
         if (projection->pose_roll != mkvparser::Projection::kValueNotPresent)
-          printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_roll);
+          printf("\t\t\tProjectionPoseRoll: %f\n", projection->pose_roll);
       }
     }
 
-- 
2.43.0


From 91dbfe8addd0e36ef44b62e956d623f223f660a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 75/79] fix: webm_info reports VP9 profile 3 key frames as
 invalid

---
 webm_info.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/webm_info.cc b/webm_info.cc
index 127dba6..ed101f5 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -733,7 +733,9 @@ void PrintVP9Info(const uint8_t* data, int size, FILE* o, int64_t time_ns,
     const int column_tiles = parser->column_tiles();
     const int frame_parallel_mode = parser->frame_parallel_mode();
 
-    if (key &&
+    // The signature of profile 3 frames is not byte aligned, but |parser| has
+    // already checked it.
+    if (key && version < 3 &&
         !(size >= 4 && data[1] == 0x49 && data[2] == 0x83 && data[3] == 0x42)) {
       fprintf(o, " invalid VP9 signature");
       return;
-- 
2.43.0


From 29cfcdf876e53f00a7d278b844dfcad563cd3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 76/79] fix: VP9 luma picture size overflows int

---
 common/vp9_level_stats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 96a4bcc..b06bbe6 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -41,7 +41,7 @@ void Vp9LevelStats::AddFrame(const Vp9HeaderParser& parser, int64_t time_ns) {
 
   const int width = parser.width();
   const int height = parser.height();
-  const int64_t luma_picture_size = width * height;
+  const int64_t luma_picture_size = static_cast<int64_t>(width) * height;
   const int64_t luma_picture_breadth = (width > height) ? width : height;
   if (luma_picture_size > max_luma_picture_size_)
     max_luma_picture_size_ = luma_picture_size;
-- 
2.43.0


From cc242033eb08e25c50565fec34569622daddd902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:59 +0000
Subject: [PATCH 77/79] fix: a tag without string made writing the segment fail

---
 mkvmuxer/mkvmuxer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 95bbe2d..d163a8b 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2363,8 +2363,10 @@ uint64_t Tag::SimpleTag::Write(IMkvWriter* writer) const {
   if (!WriteEbmlElement(writer, libwebm::kMkvTagName, tag_name_))
     return 0;
 
-  if (!WriteEbmlElement(writer, libwebm::kMkvTagString, tag_string_))
+  if (tag_string_ &&
+      !WriteEbmlElement(writer, libwebm::kMkvTagString, tag_string_)) {
     return 0;
+  }
 
   const int64_t stop = writer->Position();
 
-- 
2.43.0


From cff3895cf3244d40996719e620f73bad39eabbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 78/79] fix: a projection type the enum does not know is
 undefined behaviour

---
 mkvmuxer/mkvmuxer.h   | 2 +-
 mkvparser/mkvparser.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 775d5a0..783abca 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -604,7 +604,7 @@ class Colour {
 // Projection element.
 class Projection {
  public:
-  enum ProjectionType {
+  enum ProjectionType : int {
     kTypeNotPresent = -1,
     kRectangular = 0,
     kEquirectangular = 1,
diff --git a/mkvparser/mkvparser.h b/mkvparser/mkvparser.h
index 848d01f..73525b4 100644
--- a/mkvparser/mkvparser.h
+++ b/mkvparser/mkvparser.h
@@ -474,7 +474,7 @@ struct Colour {
 };
 
 struct Projection {
-  enum ProjectionType {
+  enum ProjectionType : int {
     kTypeNotPresent = -1,
     kRectangular = 0,
     kEquirectangular = 1,
-- 
2.43.0


From e6963ada4020198184d306fd05f6d896b8bc39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 79/79] fix: converting an absurd sampling rate to int is
 undefined behaviour

---
 mkvmuxer_sample.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 742a723..9774586 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -610,6 +610,10 @@ int main(int argc, char* argv[]) {
           static_cast<const mkvparser::AudioTrack*>(parser_track);
       const long long channels = pAudioTrack->GetChannels();
       const double sample_rate = pAudioTrack->GetSamplingRate();
+      if (!(sample_rate >= 0.0 && sample_rate <= INT32_MAX)) {
+        printf("\n Audio sampling rate(%f) is not valid.\n", sample_rate);
+        return EXIT_FAILURE;
+      }
 
       // Add the audio track to the muxer
       aud_track = muxer_segment.AddAudioTrack(static_cast<int>(sample_rate),
-- 
2.43.0

