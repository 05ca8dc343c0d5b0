From 8a9d6194da93fdc11e329426e8ac3b0ea1ba5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:21 +0000
Subject: [PATCH 01/70] fix: zero-fill of a re-used attachment-directory
 segment overwrote its entries

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..3f2d5ec 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -771,7 +771,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From d96261aecc82a14f69bb82fb4d24d989ee46c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:21 +0000
Subject: [PATCH 02/70] fix: WriteZeroes wrote only about half of the requested
 bytes beyond 8 KiB

---
 Src/libCZI/CziWriter.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 3f2d5ec..83e8ab2 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -468,15 +468,14 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
 /*static*/std::uint64_t CWriterUtils::WriteZeroes(const std::function<void(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten, const char* nameOfPartToWrite)>& writeFunc, std::uint64_t filePos, std::uint64_t count)
 {
-    size_t totalBytesWritten = 0;
-    std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    std::uint64_t totalBytesWritten = 0;
+    const std::uint8_t zeroes[4096] = { 0 };
+    while (totalBytesWritten < count)
     {
         uint64_t bytesWritten;
-        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-        writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
-        totalBytesWritten += (size_t)bytesWritten;
+        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count - totalBytesWritten);
+        writeFunc(filePos + totalBytesWritten, zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
+        totalBytesWritten += bytesToWrite;
     }
 
     return totalBytesWritten;
-- 
2.43.0


From 938ca389a8df0dbbeea7d5ffd389ca80d505712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:51 +0000
Subject: [PATCH 03/70] fix: a failed add of a sub-block or attachment left a
 phantom directory entry

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 26 ++++++++++++++++++--------
 Src/libCZI/CziAttachmentsDirectory.h   |  6 ++++++
 Src/libCZI/CziReaderWriter.cpp         | 12 ++++++++----
 Src/libCZI/CziSubBlockDirectory.cpp    | 21 ++++++++++++++++++---
 Src/libCZI/CziSubBlockDirectory.h      |  6 ++++++
 Src/libCZI/CziWriter.cpp               | 10 ++++++----
 6 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..2d30d10 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -70,10 +70,7 @@ bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entr
 
 bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
 {
-    if (std::find_if(
-        this->attachments_.cbegin(),
-        this->attachments_.cend(),
-        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend())
+    if (this->Contains(entry))
     {
         return false;
     }
@@ -82,6 +79,14 @@ bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& ent
     return true;
 }
 
+bool CWriterCziAttachmentsDirectory::Contains(const AttachmentEntry& entry) const
+{
+    return std::find_if(
+        this->attachments_.cbegin(),
+        this->attachments_.cend(),
+        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend();
+}
+
 bool CWriterCziAttachmentsDirectory::EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const
 {
     int index = 0;
@@ -183,10 +188,7 @@ bool CReaderWriterCziAttachmentsDirectory::TryRemoveAttachment(int key, Attachme
 
 bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry, int* key)
 {
-    if (std::find_if(
-        this->attchmnts.cbegin(),
-        this->attchmnts.cend(),
-        [&entry](const std::pair<int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend())
+    if (this->Contains(entry))
     {
         return false;
     }
@@ -194,3 +196,11 @@ bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntr
     this->AddAttachment(entry, key);
     return true;
 }
+
+bool CReaderWriterCziAttachmentsDirectory::Contains(const AttachmentEntry& entry) const
+{
+    return std::find_if(
+        this->attchmnts.cbegin(),
+        this->attchmnts.cend(),
+        [&entry](const std::pair<const int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend();
+}
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 886255a..30344ed 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -61,6 +61,9 @@ namespace libCZI
         {
         public:
             bool TryAddAttachment(const AttachmentEntry& entry);
+
+            /// Query whether an entry with the same identity is present already.
+            bool Contains(const AttachmentEntry& entry) const;
             int GetAttachmentCount() const;
             bool EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const;
         private:
@@ -91,6 +94,9 @@ namespace libCZI
             bool TryRemoveAttachment(int key, AttachmentEntry* attchmntEntry);
 
             bool TryAddAttachment(const AttachmentEntry& entry, int* key);
+
+            /// Query whether an entry with the same identity is present already.
+            bool Contains(const AttachmentEntry& entry) const;
         };
 
     } // namespace detail
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..b5f6f40 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -122,8 +122,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
-    if (b == false)
+    if (this->sbBlkDirectory.Contains(entry))
     {
         throw LibCZIReaderWriteException("Could not add subblock because it already exists", LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
@@ -135,6 +134,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
     const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+
+    // the entry must only be put into the directory if the sub-block has been written successfully
+    this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -147,8 +149,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->attachmentDirectory.TryAddAttachment(entry, nullptr);
-    if (b == false)
+    if (this->attachmentDirectory.Contains(entry))
     {
         throw LibCZIReaderWriteException("Could not add attachment because it already exists", LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
@@ -160,6 +161,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
     auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+
+    // the entry must only be put into the directory if the attachment has been written successfully
+    this->attachmentDirectory.TryAddAttachment(entry, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..ba40a9d 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -462,6 +462,11 @@ bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
     return insert.second;
 }
 
+bool CWriterCziSubBlockDirectory::Contains(const SubBlkEntry& entry) const
+{
+    return this->subBlks.find(entry) != this->subBlks.cend();
+}
+
 bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEntry& a, const SubBlkEntry& b) const
 {
     // returns true if the first argument goes before the second argument in the strict weak ordering it defines, 
@@ -702,17 +707,27 @@ bool CReaderWriterCziSubBlockDirectory::TryRemoveSubBlock(int key, SubBlkEntry*
 ///
 /// \return True if it succeeds, false if it fails (because an entry with identical coordinate already exists).
 bool CReaderWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry, int* key)
+{
+    if (this->Contains(entry))
+    {
+        return false;
+    }
+
+    this->AddSubBlock(entry, key);
+    return true;
+}
+
+bool CReaderWriterCziSubBlockDirectory::Contains(const SubBlkEntry& entry) const
 {
     for (auto it = this->subBlks.cbegin(); it != this->subBlks.cend(); ++it)
     {
         if (CCziSubBlockDirectoryBase::CompareForEquality_Coordinate(it->second, entry))
         {
-            return false;
+            return true;
         }
     }
 
-    this->AddSubBlock(entry, key);
-    return true;
+    return false;
 }
 
 const libCZI::SubBlockStatistics& CReaderWriterCziSubBlockDirectory::GetStatistics()
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index ca653b2..88a4c62 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -146,6 +146,9 @@ namespace libCZI
             CWriterCziSubBlockDirectory(bool allow_duplicate_subblocks);
             bool TryAddSubBlock(const SubBlkEntry& entry);
 
+            /// Query whether an entry is present which would prevent the specified entry from being added.
+            bool Contains(const SubBlkEntry& entry) const;
+
             bool EnumEntries(const std::function<bool(size_t index, const SubBlkEntry&)>& func) const;
 
             const libCZI::SubBlockStatistics& GetStatistics() const;
@@ -198,6 +201,9 @@ namespace libCZI
             bool TryRemoveSubBlock(int key, SubBlkEntry* entry = nullptr);
             bool TryAddSubBlock(const SubBlkEntry& entry, int* key);
 
+            /// Query whether an entry is present which would prevent the specified entry from being added.
+            bool Contains(const SubBlkEntry& entry) const;
+
             bool EnumEntries(const std::function<bool(int index, const SubBlkEntry&)>& func) const;
 
             const libCZI::SubBlockStatistics& GetStatistics();
diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 83e8ab2..41f22b5 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -965,13 +965,14 @@ CCziWriter::~CCziWriter()
 
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry);
-    if (b == false)
+    if (this->sbBlkDirectory.Contains(entry))
     {
         throw LibCZIWriteException("Could not add subblock because it already exists", LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
 
+    // the entry must only be put into the directory if the sub-block has been written successfully
     this->WriteSubBlock(addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry);
 }
 
 /*virtual*/void CCziWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -983,13 +984,14 @@ CCziWriter::~CCziWriter()
 
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->attachmentDirectory.TryAddAttachment(entry);
-    if (b == false)
+    if (this->attachmentDirectory.Contains(entry))
     {
         throw LibCZIWriteException("Could not add attachment because it already exists", LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
 
+    // the entry must only be put into the directory if the attachment has been written successfully
     this->WriteAttachment(addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry);
 }
 
 /*virtual*/void CCziWriter::SyncWriteMetadata(const libCZI::WriteMetadataInfo& metadataInfo)
-- 
2.43.0


From 2412463bc63bd9264872235418a019d811570d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:51 +0000
Subject: [PATCH 04/70] fix: sub-block statistics ignored the m-index of
 sub-blocks without plane coordinate

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index ba40a9d..93804cf 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -81,22 +81,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From 4d49204eaeed577fe81f518748dfe7e066036b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:51 +0000
Subject: [PATCH 05/70] fix: pyramid statistics accumulated stale counts when
 they were recreated

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 93804cf..2a03e3c 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From 4293a6d0d004982a0900558d6f89819c3960660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 06/70] fix: attachment names/types using all characters of
 their field were read beyond the field

---
 Src/libCZI/CZIReader.cpp       | 20 +++-----------------
 Src/libCZI/CziReaderCommon.cpp | 22 +++++++++++++++-------
 Src/libCZI/CziReaderCommon.h   |  4 ++++
 Src/libCZI/CziReaderWriter.cpp | 19 +++----------------
 4 files changed, 25 insertions(+), 40 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..3e2aea0 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -270,11 +270,7 @@ CCZIReader::CCZIReader() :
 
     if (info != nullptr)
     {
-        info->contentGuid = entry.ContentGuid;
-        static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-        info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        *info = CziReaderCommon::ConvertToAttachmentInfo(entry);
     }
 
     return true;
@@ -283,15 +279,10 @@ CCZIReader::CCZIReader() :
 /*virtual*/void CCZIReader::EnumerateAttachments(const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum)
 {
     this->ThrowIfNotOperational();
-    libCZI::AttachmentInfo ai;
-    ai.contentFileType[sizeof(ai.contentFileType) - 1] = '\0';
     this->attachmentDir.EnumAttachments(
         [&](int index, const CCziAttachmentsDirectory::AttachmentEntry& ae)
         {
-            ai.contentGuid = ae.ContentGuid;
-            memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
-            bool b = funcEnum(index, ai);
+            bool b = funcEnum(index, CziReaderCommon::ConvertToAttachmentInfo(ae));
             return b;
         });
 }
@@ -414,12 +405,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     }
 
     auto attchmnt = CCZIParse::ReadAttachment(stream_reference.get(), entry.FilePosition, allocateInfo);
-    libCZI::AttachmentInfo attchmentInfo;
-    attchmentInfo.contentGuid = entry.ContentGuid;
-    static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
-    memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-    attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    const libCZI::AttachmentInfo attchmentInfo = CziReaderCommon::ConvertToAttachmentInfo(entry);
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..0f7a0e6 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -6,6 +6,7 @@
 
 #include "CziUtils.h"
 #include "utilities.h"
+#include <algorithm>
 #include <atomic>
 
 using namespace std;
@@ -88,18 +89,14 @@ using namespace libCZI::detail;
     const char* name,
     const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum)
 {
-    libCZI::AttachmentInfo ai;
-    ai.contentFileType[sizeof(ai.contentFileType) - 1] = '\0';
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            const libCZI::AttachmentInfo ai = CziReaderCommon::ConvertToAttachmentInfo(ae);
+            if (contentFileType == nullptr || strcmp(contentFileType, ai.contentFileType) == 0)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ai.name == name)
                 {
-                    ai.contentGuid = ae.ContentGuid;
-                    memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
                     bool b = funcEnum(index, ai);
                     return b;
                 }
@@ -109,6 +106,17 @@ using namespace libCZI::detail;
         });
 }
 
+/*static*/libCZI::AttachmentInfo CziReaderCommon::ConvertToAttachmentInfo(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)
+{
+    libCZI::AttachmentInfo info;
+    info.contentGuid = entry.ContentGuid;
+    static_assert(sizeof(info.contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
+    memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
+    info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+    info.name.assign(entry.Name, std::find(entry.Name, entry.Name + sizeof(entry.Name), '\0'));
+    return info;
+}
+
 /*static*/libCZI::SubBlockInfo CziReaderCommon::ConvertToSubBlockInfo(const CCziSubBlockDirectory::SubBlkEntry& entry)
 {
     SubBlockInfo info;
diff --git a/Src/libCZI/CziReaderCommon.h b/Src/libCZI/CziReaderCommon.h
index 1d70179..6afa519 100644
--- a/Src/libCZI/CziReaderCommon.h
+++ b/Src/libCZI/CziReaderCommon.h
@@ -35,6 +35,10 @@ namespace libCZI
                 const char* name,
                 const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum);
 
+            /// Convert the attachment-entry. Note that the fields "ContentFileType" and "Name" of the entry are not terminated
+            /// by a zero if the text uses all of the available characters.
+            static libCZI::AttachmentInfo ConvertToAttachmentInfo(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry);
+
             static libCZI::SubBlockInfo ConvertToSubBlockInfo(const CCziSubBlockDirectory::SubBlkEntry& entry);
         };
 
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index b5f6f40..42d55c3 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -791,11 +791,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
     if (info != nullptr)
     {
-        info->contentGuid = entry.ContentGuid;
-        static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
-        info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        *info = CziReaderCommon::ConvertToAttachmentInfo(entry);
     }
 
     return true;
@@ -807,11 +803,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     this->attachmentDirectory.EnumEntries(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)->bool
         {
-            libCZI::AttachmentInfo info;
-            info.contentGuid = entry.ContentGuid;
-            memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
-            bool b = funcEnum(index, info);
+            bool b = funcEnum(index, CziReaderCommon::ConvertToAttachmentInfo(entry));
             return b;
         });
 }
@@ -938,12 +930,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     CCZIParse::SubBlockStorageAllocate allocateInfo{ malloc,free };
 
     auto attchmnt = CCZIParse::ReadAttachment(this->stream.get(), entry.FilePosition, allocateInfo);
-    libCZI::AttachmentInfo attchmentInfo;
-    attchmentInfo.contentGuid = entry.ContentGuid;
-    static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
-    memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-    attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    const libCZI::AttachmentInfo attchmentInfo = CziReaderCommon::ConvertToAttachmentInfo(entry);
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
-- 
2.43.0


From df094e81bb5a8e71750a8008f9f6ae2235bc191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 07/70] fix: the segment appended when replacing an attachment
 was overwritten by the next added segment

---
 Src/libCZI/CziReaderWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 42d55c3..32b5798 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -888,7 +888,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From 6cef067bccdfc4a015d12189b6e07099f450726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 08/70] fix: replacing a sub-block/attachment at the end of the
 file left a gap which breaks the chain of segments

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 32b5798..e9c24ab 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -181,7 +181,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
@@ -845,7 +845,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
-- 
2.43.0


From d366b350bd9a9d703ff215ed485d952e7348c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 09/70] fix: on Close an appended attachment-directory
 overlapped the appended sub-block-directory

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index e9c24ab..40dd1dd 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -289,7 +289,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -327,7 +327,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From dd5910f5e9a876fa58cd3b6ffb7c32823d235582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:26 +0000
Subject: [PATCH 10/70] fix: the last character of an attachment name with 80
 characters was dropped when reading

---
 Src/libCZI/CziParse.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..82b9c61 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -243,7 +243,6 @@ using namespace libCZI::detail;
             ae.ContentGuid = pSrc->ContentGuid;
             memcpy(&ae.ContentFileType[0], &pSrc->ContentFileType[0], sizeof(AttachmentEntryA1::ContentFileType));
             memcpy(&ae.Name[0], &pSrc->Name[0], sizeof(AttachmentEntryA1::Name));
-            ae.Name[sizeof(AttachmentEntryA1::Name) - 1] = '\0';
             addFunc(ae);
         }
     }
-- 
2.43.0


From 0d5213d7f5cf270bf1ac67bb999a297adca46286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:26 +0000
Subject: [PATCH 11/70] fix: adding a strided bitmap in an edit session stored
 the padding of the lines as pixels

---
 Src/libCZI/CziWriter.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 3b03cfe..d84ffce 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -107,15 +107,17 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbBlkInfoStrideBitmap);
 
-                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * addSbBlkInfoStrideBitmap.strideBitmap;
+                // note: only the pixels of a line are to be written, not the padding at the end of the line
+                const size_t lineLength = addSbBlkInfoStrideBitmap.physicalWidth * static_cast<size_t>(CziUtils::GetBytesPerPel(addSbBlkInfoStrideBitmap.PixelType));
+                addSbInfo.sizeData = addSbBlkInfoStrideBitmap.physicalHeight * lineLength;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
                     {
                         (void)offset;
 
                         if (callCnt < addSbBlkInfoStrideBitmap.physicalHeight)
                         {
-                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * addSbBlkInfoStrideBitmap.strideBitmap;
-                            size = addSbBlkInfoStrideBitmap.strideBitmap;
+                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * static_cast<size_t>(addSbBlkInfoStrideBitmap.strideBitmap);
+                            size = lineLength;
                             return true;
                         }
 
-- 
2.43.0


From b2a67d18094899114fa58a77da6b9eb3d823aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 12/70] fix: after a failed attempt to open a document for
 editing a second attempt gave duplicated items

---
 Src/libCZI/CziReaderWriter.cpp | 6 ++++++
 Src/libCZI/CziReaderWriter.h   | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 40dd1dd..a2e2c00 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -97,6 +97,12 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     }
     catch (...)
     {
+        // discard everything which has been read so far, so that the object can be used for another attempt
+        this->sbBlkDirectory = CReaderWriterCziSubBlockDirectory();
+        this->attachmentDirectory = CReaderWriterCziAttachmentsDirectory();
+        this->subBlockDirectorySegment = WrittenSegmentInfo();
+        this->attachmentDirectorySegment = WrittenSegmentInfo();
+        this->metadataSegment = WrittenSegmentInfo();
         this->stream.reset();
         this->info.reset();
         throw;
diff --git a/Src/libCZI/CziReaderWriter.h b/Src/libCZI/CziReaderWriter.h
index 1ea792e..70ad4d0 100644
--- a/Src/libCZI/CziReaderWriter.h
+++ b/Src/libCZI/CziReaderWriter.h
@@ -144,7 +144,7 @@ namespace libCZI
                 std::uint64_t allocatedSize;
                 bool isMarkedAsDeleted;
             public:
-                WrittenSegmentInfo() : isValid(false) {}
+                WrittenSegmentInfo() : isValid(false), filePos(0), allocatedSize(0), isMarkedAsDeleted(false) {}
                 void Invalidate() { this->isValid = false; }
                 bool IsValid() const { return this->isValid; }
                 void SetPositionAndAllocatedSize(std::uint64_t filePos, std::uint64_t allocatedSize, bool isMarkedAsDeleted)
-- 
2.43.0


From bf1e2bde3794dd5c150a6779af76c429f7118c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 13/70] fix: a document created in an edit session without any
 sub-block could not be opened

---
 Src/libCZI/CziReaderWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index a2e2c00..33a5583 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -262,7 +262,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
 void CCziReaderWriter::Finish()
 {
-    if (this->sbBlkDirectory.IsModified())
+    // note: a document without any sub-block also needs a sub-block-directory, otherwise it could not be opened again
+    if (this->sbBlkDirectory.IsModified() || !this->subBlockDirectorySegment.IsValid())
     {
         this->EnsureNextSegmentInfo();
         CWriterUtils::SubBlkDirWriteInfo sbBlkDirWriteInfo;
@@ -338,7 +339,7 @@ void CCziReaderWriter::Finish()
     }
 
     if ((this->attachmentDirectory.IsModified() && this->hdrSegmentData.GetAttachmentDirectoryPosition() != this->attachmentDirectorySegment.GetFilePos()) ||
-        (this->sbBlkDirectory.IsModified() && this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos()) ||
+        this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos() ||
         this->hdrSegmentData.GetMetadataPosition() != this->metadataSegment.GetFilePos())
     {
         this->UpdateFileHeader();
-- 
2.43.0


From 7b5e3acc5adfe9e6e3c794769e5590d810bfab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 14/70] fix: the single-channel-tile-accessor ignored the
 scene-filter

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 14 ++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..c75c8d4 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -135,17 +135,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -161,11 +161,17 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            int indexS;
+            if (sceneFilter != nullptr && info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) && !sceneFilter->IsContained(indexS))
+            {
+                return true;
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From ba22bca73594335f9c7747da1631adcacb551af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:19 +0000
Subject: [PATCH 15/70] fix: with a sub-block cache the mask-aware option of
 the operation filling the cache determined the result

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..6fe8601 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,17 +175,21 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
-            if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
+            const bool add_to_cache = !only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed;
+
+            // note: the item in the cache may be used later on by a "mask-aware" operation, so it must include the mask in any case
+            const auto mask = (mask_aware_mode || add_to_cache) ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
+            result.mask = mask_aware_mode ? mask : nullptr;
+            if (add_to_cache)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                cache->Add(sub_block_index, { result.bitmap, mask });
             }
         }
     }
-- 
2.43.0


From badffbdcf4c94a0e29e7cf227d8f8bd16f4c01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:19 +0000
Subject: [PATCH 16/70] fix: the visibility-check-optimization dropped tiles
 which are visible through the mask of the tiles above

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..34fc000 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // with masks, a tile does not necessarily hide what is below it - so the visibility check cannot be used in mask-aware mode
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index c75c8d4..4ecf2c3 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // with masks, a tile does not necessarily hide what is below it - so the visibility check cannot be used in mask-aware mode
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From b447d77ac9c8112b89496408bab5b66cd73e95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:24 +0000
Subject: [PATCH 17/70] fix: a reader re-opened on a document without
 attachments reported the attachments of the previous document

---
 Src/libCZI/CZIReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 3e2aea0..021aa46 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -62,6 +62,11 @@ CCZIReader::CCZIReader() :
         // TODO: how to determine whether there is "no attachment-directory" - is the check for 0 sufficient?
         this->attachmentDir = CCZIParse::ReadAttachmentsDirectory(stream.get(), attachmentPos);
     }
+    else
+    {
+        // the instance may have been used with another document before
+        this->attachmentDir = CCziAttachmentsDirectory();
+    }
 
     this->stream = stream;
     switch (options->default_frame_of_reference)
-- 
2.43.0


From 3b8d9d409d366b81e172c3beb0fd39329a730922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:08 +0000
Subject: [PATCH 18/70] fix: the chunks after the first one in a chunk
 container were not enumerated correctly

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..6594bb3 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,22 +55,20 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    std::uint64_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
         // is sufficient data available?
         if (size_attachment_data < offset + 20 + chunk_info.size)
@@ -78,7 +76,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<std::uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
-- 
2.43.0


From ad0c39671586f84aa3002d25253ba1d032c9879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:27 +0000
Subject: [PATCH 19/70] fix: a missing or malformed valid-pixel-mask in a
 sub-block attachment gave invalid memory accesses

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 38 ++++++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 6594bb3..f039495 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -104,19 +104,31 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Subblock does not have a chunk container.");
     }
 
+    bool valid_pixel_mask_found = false;
     ChunkInfo chunk_info_valid_pixel_mask;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &valid_pixel_mask_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found)
+    {
+        throw LibCZIException("No valid pixel mask in the chunk container.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("Invalid valid pixel mask.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
@@ -152,7 +164,8 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid uncompressed bitonal bitmap pixel mask ");
     }
 
-    mask_info_uncompressed_bitonal_bitmap.stride = *reinterpret_cast<const std::uint32_t*>(static_cast<const uint8_t*>(mask_info_general.data.get()));
+    mask_info_uncompressed_bitonal_bitmap.stride = 0;
+    memcpy(&mask_info_uncompressed_bitonal_bitmap.stride, mask_info_general.data.get(), sizeof(mask_info_uncompressed_bitonal_bitmap.stride));
     Utilities::ConvertUint32ToHostByteOrder(&mask_info_uncompressed_bitonal_bitmap.stride);
     mask_info_uncompressed_bitonal_bitmap.size_data = mask_info_general.size_data - sizeof(uint32_t);
     if (mask_info_uncompressed_bitonal_bitmap.size_data > 0)
@@ -172,7 +185,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = static_cast<uint32_t>((static_cast<uint64_t>(mask_info.width) + 7) / 8);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
@@ -183,7 +196,24 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     {
         throw LibCZIException("Insufficient size of uncompressed bitonal bitmap pixel mask data.");
     }
-    
+
+    if (mask_info.size_data / mask_info.stride < mask_info.height)
+    {
+        // the padding of the last line is not present, so the existing data buffer is smaller than the size a
+        //  bitmap with this stride reports - a copy (with the minimal stride) is required
+        auto bitonal_bitmap_copy = CStdBitonalBitmapData::Create(mask_info.width, mask_info.height, minimal_stride);
+        const ScopedBitonalBitmapLockerSP locker{ bitonal_bitmap_copy };
+        for (uint32_t y = 0; y < mask_info.height; ++y)
+        {
+            memcpy(
+                static_cast<uint8_t*>(locker.ptrData) + static_cast<size_t>(y) * locker.stride,
+                static_cast<const uint8_t*>(mask_info.data.get()) + static_cast<size_t>(y) * mask_info.stride,
+                minimal_stride);
+        }
+
+        return bitonal_bitmap_copy;
+    }
+
     // Create a new bitonal bitmap data object (but using the existing data buffer!).
     CSharedPtrAllocator sharedPtrAllocator(mask_info.data); 
     auto bitonal_bitmap = CBitonalBitmapData<CSharedPtrAllocator>::Create(
-- 
2.43.0


From 0a28beb15c81bc3c6c13d4ee4c36d64fbc6c4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 20/70] fix: an invalid dimension count in a sub-block
 directory entry gave an invalid memory access

---
 Src/libCZI/CziParse.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 82b9c61..473c862 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -287,7 +287,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
@@ -500,8 +500,14 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                stringstream ss;
+                ss << "'DimensionCount' was found to be " << dv.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
+                CCZIParse::ThrowIllegalData(ss.str().c_str());
+            }
+
             int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From e3ad4086cb4d38cecef299de0791532bff0537bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 21/70] fix: negative sizes in a segment and a segment of an
 unsupported schema were reported as valid sizes

---
 Src/libCZI/CziParse.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 473c862..2eb4ac7 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -278,13 +278,13 @@ using namespace libCZI::detail;
     }
 
     uint32_t lengthSubblockSegmentData = 0;
-    SubBlockData sbd;
+    SubBlockData sbd{};
+    sbd.mIndex = (std::numeric_limits<int>::max)();
     if (subBlckSegment.data.entrySchema[0] == 'D' && subBlckSegment.data.entrySchema[1] == 'V')
     {
         ConvertToHostByteOrder::Convert(&subBlckSegment.data.entryDV);
         sbd.compression = subBlckSegment.data.entryDV.Compression;
         sbd.pixelType = subBlckSegment.data.entryDV.PixelType;
-        sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
         if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
@@ -367,6 +367,11 @@ using namespace libCZI::detail;
     //  the reserved (minimal) size here
     lengthSubblockSegmentData = max(lengthSubblockSegmentData, (uint32_t)SIZE_SUBBLOCKDATA_MINIMUM);
 
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.DataSize < 0 || subBlckSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in SubBlock-Segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
@@ -386,7 +391,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -403,7 +408,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -420,7 +425,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -460,6 +465,11 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in Attachment-Segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
@@ -475,7 +485,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<std::uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -675,6 +685,11 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid MetadataSegment-magic");
     }
 
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in MetadataSegment");
+    }
+
     // TODO: perform consistency checks...
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
@@ -690,7 +705,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<std::uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -707,7 +722,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<std::uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
-- 
2.43.0


From f47bbcc95dd1fd9bc1e9fb84c2e80abad0f28d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 22/70] fix: a failing allocation when reading a segment gave a
 null-pointer access or a size without data

---
 Src/libCZI/CziParse.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 2eb4ac7..1503b71 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <new>
 #include "Site.h"
 
 using namespace std;
@@ -22,6 +23,16 @@ using namespace libCZI::detail;
 /*static*/const std::uint8_t CCZIParse::ATTACHMENTBLKMAGIC[16] = { 'Z','I','S','R','A','W','A','T','T','A','C','H','\0','\0' ,'\0','\0' };
 /*static*/const std::uint8_t CCZIParse::DELETEDSEGMENTMAGIC[16] = { 'D','E','L','E','T','E','D','\0','\0','\0' ,'\0','\0','\0','\0' ,'\0','\0' };
 
+static void* ThrowIfNull(void* ptr)
+{
+    if (ptr == nullptr)
+    {
+        throw std::bad_alloc();
+    }
+
+    return ptr;
+}
+
 /*static*/FileHeaderSegmentData CCZIParse::ReadFileHeaderSegment(libCZI::IStream* str)
 {
     FileHeaderSegment fileHeaderSegment;
@@ -115,7 +126,7 @@ using namespace libCZI::detail;
     }
 
     // now read the used-size from stream
-    std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    std::unique_ptr<void, decltype(free)*> pBuffer(ThrowIfNull(malloc((size_t)subBlkDirSize)), free);
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -209,7 +220,7 @@ using namespace libCZI::detail;
     {
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
-        unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(ThrowIfNull(malloc((size_t)attachmentEntriesSize))), free);
 
         // now read the attachment-entries
         try
@@ -374,9 +385,10 @@ using namespace libCZI::detail;
 
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
+    auto allocate = [&](size_t size) -> void* {return ThrowIfNull(allocateInfo.alloc(size)); };
+    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocate(subBlckSegment.data.MetadataSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocate(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocate(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
 
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
@@ -472,7 +484,8 @@ using namespace libCZI::detail;
 
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    auto allocate = [&](size_t size) -> void* {return ThrowIfNull(allocateInfo.alloc(size)); };
+    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocate(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
 
     if (pAttchmntBuffer)
     {
@@ -692,8 +705,9 @@ using namespace libCZI::detail;
 
     // TODO: perform consistency checks...
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    auto allocate = [&](size_t size) -> void* {return ThrowIfNull(allocateInfo.alloc(size)); };
+    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocate(metadataSegment.data.XmlSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocate(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
     if (pXmlBuffer)
     {
         try
-- 
2.43.0


From b7eecec5e52b75d30a727a2c027abfd51c78568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 23/70] fix: zstd1-compressed Bgr48 sub-blocks with
 lo-hi-byte-packing were decoded incorrectly when a size mismatch is tolerated

---
 Src/libCZI/decoder_zstd.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..7dc564a 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -292,7 +292,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, static_cast<uint32_t>(stride / 2), height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,7 +307,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
             memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
             return bitmap;
         }
@@ -331,7 +331,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From 328a336d7c56f8f4bf0f3a41f104619b3141d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 24/70] fix: parsing the header of zstd1-compressed data could
 read beyond the end of the data

---
 Src/libCZI/decoder_zstd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 7dc564a..88feb02 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -382,7 +382,7 @@ namespace
         }
 
         // is "chunk type 1" next?
-        if (*(ptrData + 1) == 1)
+        if (size >= 3 && *(ptrData + 1) == 1)
         {
             // yes, so now the LSB gives the information about "hiLoByteUnpackPreprocessing"
             retVal.hiLoByteUnpackPreprocessing = ((*(ptrData + 2)) & 1) == 1;
-- 
2.43.0


From ce09d2ab2c410de762300bf725c8f0d9e828a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:05 +0000
Subject: [PATCH 25/70] fix: a sub-block with an excessive width gave a bitmap
 whose stride was truncated

---
 Src/libCZI/CreateBitmap.cpp |  8 +++++++-
 Src/libCZI/bitmapData.h     | 13 ++++++++++---
 Src/libCZI/decoder_zstd.cpp | 20 +++++++++++++++-----
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..5084a57 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -104,7 +104,13 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     const auto& sub_block_info = subBlk->GetSubBlockInfo();
 
     // The stride with an uncompressed bitmap in CZI is exactly the line-size.
-    const std::uint32_t stride = sub_block_info.physicalSize.w * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    const std::uint64_t line_size = static_cast<std::uint64_t>(sub_block_info.physicalSize.w) * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    if (line_size > (std::numeric_limits<std::uint32_t>::max)())
+    {
+        throw std::runtime_error("The width of the bitmap is too large.");
+    }
+
+    const std::uint32_t stride = static_cast<std::uint32_t>(line_size);
     const size_t expected_size = static_cast<size_t>(stride) * sub_block_info.physicalSize.h;
 
     size_t size;
diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..a7a0c69 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -6,6 +6,8 @@
 
 #include <memory>
 #include <atomic>
+#include <limits>
+#include <stdexcept>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
 #include "stdAllocator.h"
@@ -121,11 +123,16 @@ namespace libCZI
             }
 
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint32_t width)
             {
-                auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
+                auto stride = CziUtils::GetBytesPerPel(pixeltype) * static_cast<std::uint64_t>(width);
                 stride = ((stride + 3) / 4) * 4;
-                return stride;
+                if (stride > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::runtime_error("The width of the bitmap is too large.");
+                }
+
+                return static_cast<std::uint32_t>(stride);
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 88feb02..a122488 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -115,6 +115,17 @@ namespace
         return decompressed_size;
     }
 
+    size_t CalcStrideOrThrow(libCZI::PixelType pixel_type, uint32_t width)
+    {
+        const uint64_t stride = width * static_cast<uint64_t>(Utils::GetBytesPerPixel(pixel_type));
+        if (stride > (numeric_limits<uint32_t>::max)())
+        {
+            throw runtime_error("The width of the bitmap is too large.");
+        }
+
+        return static_cast<size_t>(stride);
+    }
+
     /// Decodes zstd-compressed data to give a bitmap of the specified characteristics. If the size of the
     /// zstd-compressed data does not exactly match the size of the bitmap, an exception is thrown.
     ///
@@ -130,7 +141,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeRequireCorrectSize(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        const size_t stride = CalcStrideOrThrow(pixel_type, width);
         const size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -165,7 +176,7 @@ namespace
     {
         // calculate the expected size of the uncompressed data
         const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = CalcStrideOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -209,7 +220,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        size_t stride = CalcStrideOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
@@ -275,8 +286,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHiLoBytePackAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = CalcStrideOrThrow(pixel_type, width);
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
-- 
2.43.0


From 2481cfa7068a9d1cdc252a4ed940a773257c03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:48 +0000
Subject: [PATCH 26/70] fix: checking the signature of JPEG-XR data read beyond
 the end of a buffer

---
 Src/JxrDecode/jxrlib/image/decode/strdec.c   | 2 +-
 Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/JxrDecode/jxrlib/image/decode/strdec.c b/Src/JxrDecode/jxrlib/image/decode/strdec.c
index ff235b3..c733dfe 100644
--- a/Src/JxrDecode/jxrlib/image/decode/strdec.c
+++ b/Src/JxrDecode/jxrlib/image/decode/strdec.c
@@ -2964,7 +2964,7 @@ Int JXRLIB_API(ReadWMIHeader)(
 // 0
     /** signature **/
     Call(pWS->Read(pWS, szMS, sizeof(szMS)));
-    FailIf(szMS != (U8*)strstr((char*)szMS, "WMPHOTO"), WMP_errUnsupportedFormat);
+    FailIf(0 != strncmp((char*)szMS, "WMPHOTO", 7), WMP_errUnsupportedFormat);
     //================================
     Call(JXRLIB_API(attach_SB)(pSB, pWS));
 
diff --git a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
index dae26ba..0ac82be 100644
--- a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
+++ b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
@@ -1812,7 +1812,7 @@ ERR JXRLIB_API(ReadContainer)(
     //================================
     // Header
     Call(pWS->Read(pWS, szSig, sizeof(szSig))); offPos += 2;
-    FailIf(szSig != strstr(szSig, "II"), WMP_errUnsupportedFormat);
+    FailIf(0 != strncmp(szSig, "II", 2), WMP_errUnsupportedFormat);
 
     Call(JXRLIB_API(GetUShort)(pWS, offPos, &uWmpID)); offPos += 2;
     FailIf(WMP_valWMPhotoID != (0x00FF & uWmpID), WMP_errUnsupportedFormat);
-- 
2.43.0


From 654fd1941d91d3973579bc1e29a190d0e22f7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:10 +0000
Subject: [PATCH 27/70] fix: scaling an empty bitmap accessed memory outside of
 the bitmap

---
 Src/libCZI/BitmapOperations.hpp        | 5 +++++
 Src/libCZI/BitmapOperationsBitonal.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..4a7466b 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -415,6 +415,11 @@ namespace libCZI
         template <libCZI::PixelType tSrcPixelType, libCZI::PixelType tDstPixelType, typename tPixelConverter, typename tFlt>
         void CBitmapOperations::InternalNNScale2(const tPixelConverter& conv, const NNResizeInfo2<tFlt>& resizeInfo)
         {
+            if (resizeInfo.srcWidth <= 0 || resizeInfo.srcHeight <= 0)
+            {
+                return; // there is no pixel in the source
+            }
+
             constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
             constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..9e15afa 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -431,6 +431,11 @@ namespace
     template <libCZI::PixelType tSrcPixelType, libCZI::PixelType tDstPixelType, typename tPixelConverter, typename tFlt>
     void InternalNNScaleMaskAware2(const tPixelConverter& conv, const NNResizeMaskAwareInfo2<tFlt>& resize_info)
     {
+        if (resize_info.srcWidth <= 0 || resize_info.srcHeight <= 0)
+        {
+            return; // there is no pixel in the source
+        }
+
         constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
         constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
-- 
2.43.0


From 55988488ed57ecb00a7adb68f03580f3e4d13a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:10 +0000
Subject: [PATCH 28/70] fix: a JPEG-XR sub-block whose pixel type cannot be
 converted terminated the program

---
 Src/libCZI/CreateBitmap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 5084a57..a172808 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -43,8 +43,8 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // create a bitmap of the size described in the subblock
             auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
-            auto adjusted_bitmap_lock = adjusted_bitmap->Lock();
-            auto decoded_bitmap_lock = decoded_bitmap->Lock();
+            const ScopedBitmapLockerSP adjusted_bitmap_lock{ adjusted_bitmap };
+            const ScopedBitmapLockerSP decoded_bitmap_lock{ decoded_bitmap };
             CBitmapOperations::CopyWithOffsetInfo copy_info;
             copy_info.xOffset = 0;
             copy_info.yOffset = 0;
@@ -60,8 +60,6 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             copy_info.dstHeight = adjusted_bitmap->GetHeight();
             copy_info.drawTileBorder = false;
             CBitmapOperations::CopyWithOffset(copy_info);
-            adjusted_bitmap->Unlock();
-            decoded_bitmap->Unlock();
             return adjusted_bitmap;
         }
     }
-- 
2.43.0


From f707e8d7b677efd9ab99e085267e7b3a9c63ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 29/70] fix: the conversion of Bgr24 to Bgr48 read beyond the
 source pixel

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 4a7466b..97652ca 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 54224aa147adac3f8780643c600e8db3516b2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:32 +0000
Subject: [PATCH 30/70] fix: a failing allocation when creating a sub-block,
 attachment or metadata-segment object leaked or freed its memory twice

---
 Src/libCZI/CZIReader.cpp          | 17 +++++++----------
 Src/libCZI/CziAttachment.cpp      |  4 ++--
 Src/libCZI/CziAttachment.h        |  2 +-
 Src/libCZI/CziMetadataSegment.cpp |  7 ++++---
 Src/libCZI/CziMetadataSegment.h   |  2 +-
 Src/libCZI/CziReaderWriter.cpp    | 12 +++++++++---
 Src/libCZI/CziSubBlock.cpp        |  9 +++++----
 Src/libCZI/CziSubBlock.h          |  2 +-
 8 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 021aa46..57ea5d0 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -383,14 +383,8 @@ std::shared_ptr<ISubBlock> CCZIReader::ReadSubBlock(const CCziSubBlockDirectory:
         info.pyramidType = CziUtils::PyramidTypeFromByte(subBlkData.spare[0]);
     }
 
-    auto sub_block = std::make_shared<CCziSubBlock>(info, subBlkData, free);
-
-    // Release the memory from the guards since CCziSubBlock has taken ownership
-    dataGuard.release();
-    attachmentGuard.release();
-    metadataGuard.release();
-
-    return sub_block;
+    // the ownership of the memory is transferred from the guards to the CCziSubBlock-object
+    return std::make_shared<CCziSubBlock>(info, subBlkData, std::move(dataGuard), std::move(attachmentGuard), std::move(metadataGuard));
 }
 
 std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttachmentsDirectory::AttachmentEntry& entry)
@@ -410,9 +404,10 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     }
 
     auto attchmnt = CCZIParse::ReadAttachment(stream_reference.get(), entry.FilePosition, allocateInfo);
+    std::unique_ptr<void, decltype(&::free)> dataGuard(attchmnt.ptrData, ::free);
     const libCZI::AttachmentInfo attchmentInfo = CziReaderCommon::ConvertToAttachmentInfo(entry);
 
-    return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
+    return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, std::move(dataGuard));
 }
 
 std::shared_ptr<libCZI::IMetadataSegment> CCZIReader::ReadMetadataSegment(std::uint64_t position)
@@ -432,7 +427,9 @@ std::shared_ptr<libCZI::IMetadataSegment> CCZIReader::ReadMetadataSegment(std::u
     }
 
     auto metaDataSegmentData = CCZIParse::ReadMetadataSegment(stream_reference.get(), position, allocateInfo);
-    return std::make_shared<CCziMetadataSegment>(metaDataSegmentData, free);
+    std::unique_ptr<void, decltype(&::free)> xmlDataGuard(metaDataSegmentData.ptrXmlData, ::free);
+    std::unique_ptr<void, decltype(&::free)> attachmentGuard(metaDataSegmentData.ptrAttachment, ::free);
+    return std::make_shared<CCziMetadataSegment>(metaDataSegmentData, std::move(xmlDataGuard), std::move(attachmentGuard));
 }
 
 void CCZIReader::ThrowIfNotOperational() const
diff --git a/Src/libCZI/CziAttachment.cpp b/Src/libCZI/CziAttachment.cpp
index 15b217a..100413e 100644
--- a/Src/libCZI/CziAttachment.cpp
+++ b/Src/libCZI/CziAttachment.cpp
@@ -9,9 +9,9 @@
 using namespace libCZI;
 using namespace libCZI::detail;
 
-CCziAttachment::CCziAttachment(libCZI::AttachmentInfo info, const CCZIParse::AttachmentData& data, std::function<void(void*)> deleter)
+CCziAttachment::CCziAttachment(libCZI::AttachmentInfo info, const CCZIParse::AttachmentData& data, std::shared_ptr<const void> spData)
     :
-    spData(std::shared_ptr<const void>(data.ptrData, std::move(deleter))),
+    spData(std::move(spData)),
     dataSize(data.dataSize),
     info(std::move(info))
 {
diff --git a/Src/libCZI/CziAttachment.h b/Src/libCZI/CziAttachment.h
index 0aebf70..cb84875 100644
--- a/Src/libCZI/CziAttachment.h
+++ b/Src/libCZI/CziAttachment.h
@@ -20,7 +20,7 @@ namespace libCZI
             std::uint64_t   dataSize;
             libCZI::AttachmentInfo  info;
         public:
-            CCziAttachment(libCZI::AttachmentInfo info, const CCZIParse::AttachmentData& data, std::function<void(void*)> deleter);
+            CCziAttachment(libCZI::AttachmentInfo info, const CCZIParse::AttachmentData& data, std::shared_ptr<const void> spData);
 
             // interface IAttachment
             const libCZI::AttachmentInfo& GetAttachmentInfo() const override;
diff --git a/Src/libCZI/CziMetadataSegment.cpp b/Src/libCZI/CziMetadataSegment.cpp
index 2df1ddd..009a872 100644
--- a/Src/libCZI/CziMetadataSegment.cpp
+++ b/Src/libCZI/CziMetadataSegment.cpp
@@ -2,15 +2,16 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <utility>
 #include "CziMetadataSegment.h"
 #include "CziUtils.h"
 
 using namespace libCZI;
 using namespace libCZI::detail;
 
-CCziMetadataSegment::CCziMetadataSegment(const CCZIParse::MetadataSegmentData& data, const std::function<void(void*)>& deleter)
-    : spXmlData(std::shared_ptr<const void>(data.ptrXmlData, deleter)),
-    spAttachment(std::shared_ptr<const void>(data.ptrAttachment, deleter)),
+CCziMetadataSegment::CCziMetadataSegment(const CCZIParse::MetadataSegmentData& data, std::shared_ptr<const void> spXmlData, std::shared_ptr<const void> spAttachment)
+    : spXmlData(std::move(spXmlData)),
+    spAttachment(std::move(spAttachment)),
     xmlDataSize(data.xmlDataSize),
     attachmentSize(data.attachmentSize)
 {
diff --git a/Src/libCZI/CziMetadataSegment.h b/Src/libCZI/CziMetadataSegment.h
index 7689957..895fa30 100644
--- a/Src/libCZI/CziMetadataSegment.h
+++ b/Src/libCZI/CziMetadataSegment.h
@@ -20,7 +20,7 @@ namespace libCZI
             std::uint64_t   xmlDataSize;
             std::uint32_t   attachmentSize;
         public:
-            CCziMetadataSegment(const CCZIParse::MetadataSegmentData& data, const std::function<void(void*)>& deleter);
+            CCziMetadataSegment(const CCZIParse::MetadataSegmentData& data, std::shared_ptr<const void> spXmlData, std::shared_ptr<const void> spAttachment);
 
             // interface ISubBlock
             void DangerousGetRawData(MemBlkType type, const void*& ptr, size_t& size) const override;
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 33a5583..af58b6a 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -250,7 +250,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
     CCZIParse::SubBlockStorageAllocate allocateInfo{ malloc,free };
     auto metaDataSegmentData = CCZIParse::ReadMetadataSegment(this->stream.get(), this->metadataSegment.GetFilePos(), allocateInfo);
-    auto metaDataSegment = make_shared<CCziMetadataSegment>(metaDataSegmentData, allocateInfo.free);
+    std::unique_ptr<void, decltype(&::free)> xmlDataGuard(metaDataSegmentData.ptrXmlData, ::free);
+    std::unique_ptr<void, decltype(&::free)> attachmentGuard(metaDataSegmentData.ptrAttachment, ::free);
+    auto metaDataSegment = make_shared<CCziMetadataSegment>(metaDataSegmentData, std::move(xmlDataGuard), std::move(attachmentGuard));
     return metaDataSegment;
 }
 
@@ -681,6 +683,9 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     CCZIParse::SubBlockStorageAllocate allocateInfo{ malloc,free };
 
     auto subBlkData = CCZIParse::ReadSubBlock(this->stream.get(), entry.FilePosition, allocateInfo);
+    std::unique_ptr<void, decltype(&::free)> dataGuard(subBlkData.ptrData, ::free);
+    std::unique_ptr<void, decltype(&::free)> attachmentGuard(subBlkData.ptrAttachment, ::free);
+    std::unique_ptr<void, decltype(&::free)> metadataGuard(subBlkData.ptrMetadata, ::free);
 
     libCZI::SubBlockInfo info;
     info.pixelType = CziUtils::PixelTypeFromInt(subBlkData.pixelType);
@@ -691,7 +696,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     info.physicalSize = subBlkData.physicalSize;
     info.pyramidType = CziUtils::PyramidTypeFromByte(subBlkData.spare[0]);
 
-    return std::make_shared<CCziSubBlock>(info, subBlkData, free);
+    return std::make_shared<CCziSubBlock>(info, subBlkData, std::move(dataGuard), std::move(attachmentGuard), std::move(metadataGuard));
 }
 
 /*virtual*/bool CCziReaderWriter::TryGetSubBlockInfo(int index, libCZI::SubBlockInfo* info) const
@@ -937,9 +942,10 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     CCZIParse::SubBlockStorageAllocate allocateInfo{ malloc,free };
 
     auto attchmnt = CCZIParse::ReadAttachment(this->stream.get(), entry.FilePosition, allocateInfo);
+    std::unique_ptr<void, decltype(&::free)> dataGuard(attchmnt.ptrData, ::free);
     const libCZI::AttachmentInfo attchmentInfo = CziReaderCommon::ConvertToAttachmentInfo(entry);
 
-    return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
+    return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, std::move(dataGuard));
 }
 
 void CCziReaderWriter::ThrowIfNotOperational() const
diff --git a/Src/libCZI/CziSubBlock.cpp b/Src/libCZI/CziSubBlock.cpp
index 63f4b20..b9b51fe 100644
--- a/Src/libCZI/CziSubBlock.cpp
+++ b/Src/libCZI/CziSubBlock.cpp
@@ -2,17 +2,18 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <utility>
 #include "CziSubBlock.h"
 #include "CziUtils.h"
 
 using namespace libCZI;
 using namespace libCZI::detail;
 
-CCziSubBlock::CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, const std::function<void(void*)>& deleter)
+CCziSubBlock::CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, std::shared_ptr<const void> spData, std::shared_ptr<const void> spAttachment, std::shared_ptr<const void> spMetadata)
     :
-    spData(std::shared_ptr<const void>(data.ptrData, deleter)),
-    spAttachment(std::shared_ptr<const void>(data.ptrAttachment, deleter)),
-    spMetadata(std::shared_ptr<const void>(data.ptrMetadata, deleter)),
+    spData(std::move(spData)),
+    spAttachment(std::move(spAttachment)),
+    spMetadata(std::move(spMetadata)),
     dataSize(data.dataSize),
     attachmentSize(data.attachmentSize),
     metaDataSize(data.metaDataSize),
diff --git a/Src/libCZI/CziSubBlock.h b/Src/libCZI/CziSubBlock.h
index dda9217..d8535c9 100644
--- a/Src/libCZI/CziSubBlock.h
+++ b/Src/libCZI/CziSubBlock.h
@@ -22,7 +22,7 @@ namespace libCZI
             std::uint32_t   metaDataSize;
             libCZI::SubBlockInfo    info;
         public:
-            CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, const std::function<void(void*)>& deleter);
+            CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, std::shared_ptr<const void> spData, std::shared_ptr<const void> spAttachment, std::shared_ptr<const void> spMetadata);
 
             // interface ISubBlock
             const libCZI::SubBlockInfo& GetSubBlockInfo() const override;
-- 
2.43.0


From 0424f7ff6754010691b8f7ec3d90d7c9118a59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:48 +0000
Subject: [PATCH 31/70] fix: a failing allocation when writing a sub-block or a
 directory gave a null-pointer access

---
 Src/libCZI/CziWriter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 41f22b5..aec61d3 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -158,6 +158,11 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     else
     {
         std::unique_ptr<SubBlockSegment, void(*)(SubBlockSegment*)> upSbBlkSegment(static_cast<SubBlockSegment*>(malloc(sbBlkSegmentSize)), [](SubBlockSegment* p)->void {free(p); });
+        if (!upSbBlkSegment)
+        {
+            throw std::bad_alloc();
+        }
+
         memset(upSbBlkSegment.get(), 0, sbBlkSegmentSize);
         CWriterUtils::FillSubBlockSegment(info, addSbBlkInfo, upSbBlkSegment.get());
         if (info.useSpecifiedAllocatedSize == true)
@@ -635,6 +640,11 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     size_t subBlockDirectorySegmentSize = sizeof(SubBlockDirectorySegment) + totalSizeSubBlockDirectoryEntryDV;
     std::unique_ptr<SubBlockDirectorySegment, void(*)(SubBlockDirectorySegment*)> upSbBlkDirSegment(static_cast<SubBlockDirectorySegment*>(malloc(subBlockDirectorySegmentSize)), [](SubBlockDirectorySegment* p)->void {free(p); });
+    if (!upSbBlkDirSegment)
+    {
+        throw std::bad_alloc();
+    }
+
     memcpy(upSbBlkDirSegment->header.Id, CCZIParse::SUBBLKDIRMAGIC, 16);
 
     // the size must be AT LEAST 128 bytes (the _used_ size)
@@ -743,6 +753,10 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     totalBytesWritten += bytesWritten;
 
     std::unique_ptr<AttachmentEntryA1, void(*)(AttachmentEntryA1*)> upAttchmntData(static_cast<AttachmentEntryA1*>(malloc(sizeAttchmntEntries)), [](AttachmentEntryA1* p)->void {free(p); });
+    if (!upAttchmntData && sizeAttchmntEntries > 0)
+    {
+        throw std::bad_alloc();
+    }
 
     size_t index_count = 0;
     info.enumEntriesFunc(
-- 
2.43.0


From 16759d4e69f618abf72b33fb799c6198be3ae9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:28 +0000
Subject: [PATCH 32/70] fix: a failing allocation when updating the statistics
 left a sub-block registered of which the caller was told that adding it
 failed

---
 Src/libCZI/CziSubBlockDirectory.cpp | 50 ++++++++++++++++++++++++++---
 Src/libCZI/CziSubBlockDirectory.h   |  6 ++++
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 2a03e3c..629dd24 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -456,8 +456,25 @@ bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
 
     if (insert.second)
     {
-        this->sblkStatistics.UpdateStatistics(entry);
-        this->pixelTypeForChannel.AddSbBlk(entry);
+        try
+        {
+            this->pixelTypeForChannel.AddSbBlk(entry);
+        }
+        catch (...)
+        {
+            this->subBlks.erase(insert.first);
+            throw;
+        }
+
+        try
+        {
+            this->sblkStatistics.UpdateStatistics(entry);
+        }
+        catch (const std::bad_alloc&)
+        {
+            // the statistics may now be incomplete, so they have to be re-created before they are used
+            this->sbBlkStatisticsCurrent = false;
+        }
     }
 
     return insert.second;
@@ -578,14 +595,30 @@ bool CWriterCziSubBlockDirectory::EnumEntries(const std::function<bool(size_t in
 
 const libCZI::SubBlockStatistics& CWriterCziSubBlockDirectory::GetStatistics() const
 {
+    this->EnsureStatisticsCurrent();
     return this->sblkStatistics.GetStatistics();
 }
 
 const libCZI::PyramidStatistics& CWriterCziSubBlockDirectory::GetPyramidStatistics() const
 {
+    this->EnsureStatisticsCurrent();
     return this->sblkStatistics.GetPyramidStatistics();
 }
 
+void CWriterCziSubBlockDirectory::EnsureStatisticsCurrent() const
+{
+    if (!this->sbBlkStatisticsCurrent)
+    {
+        this->sblkStatistics.Clear();
+        for (const auto& entry : this->subBlks)
+        {
+            this->sblkStatistics.UpdateStatistics(entry);
+        }
+
+        this->sbBlkStatisticsCurrent = true;
+    }
+}
+
 const PixelTypeForChannelIndexStatistic& CWriterCziSubBlockDirectory::GetPixelTypeForChannel() const
 {
     return this->pixelTypeForChannel;
@@ -620,14 +653,21 @@ void CReaderWriterCziSubBlockDirectory::AddSubBlock(const SubBlkEntry& entry, in
         *key = this->nextSbBlkIndex;
     }
 
+    this->nextSbBlkIndex++;
     this->SetModified(true);
     if (this->sbBlkStatisticsCurrent)   // no need to update if it is already "not up-to-date"
     {
-        this->sblkStatistics.UpdateStatistics(entry);
         this->sbBlkStatisticsConsolidated = false;
+        try
+        {
+            this->sblkStatistics.UpdateStatistics(entry);
+        }
+        catch (const std::bad_alloc&)
+        {
+            // the statistics may now be incomplete, so they have to be re-created before they are used
+            this->sbBlkStatisticsCurrent = false;
+        }
     }
-
-    this->nextSbBlkIndex++;
 }
 
 bool CReaderWriterCziSubBlockDirectory::EnumEntries(const std::function<bool(int index, const SubBlkEntry&)>& func) const
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index 88a4c62..c05ad8d 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -139,6 +139,10 @@ namespace libCZI
             };
         private:
             mutable CSbBlkStatisticsUpdater sblkStatistics;
+
+            /// Indicates that "sblkStatistics" is up-to-date.
+            mutable bool sbBlkStatisticsCurrent{ true };
+
             std::map<int, int> mapChannelIdxPixelType;
             PixelTypeForChannelIndexStatisticCreate pixelTypeForChannel;
         public:
@@ -155,6 +159,8 @@ namespace libCZI
             const libCZI::PyramidStatistics& GetPyramidStatistics() const;
             const PixelTypeForChannelIndexStatistic& GetPixelTypeForChannel() const;
         private:
+            void EnsureStatisticsCurrent() const;
+
             /// Implementation of a "less-comparison" for SubBlkEntry objects, which can
             /// be parametrized.
             struct SubBlkEntryCompare
-- 
2.43.0


From 99127c7ea257a952c7958974368fd688cea598e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:32 +0000
Subject: [PATCH 33/70] fix: metadata XML was treated as invalid (and a mask
 ignored) when memory ran out while parsing it

---
 Src/libCZI/CziMetadata.cpp      | 6 ++++++
 Src/libCZI/SubblockMetadata.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index ecbb902..fb9eebe 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -16,6 +16,12 @@ CCziMetadata::CCziMetadata(libCZI::IMetadataSegment* pMdSeg)
     size_t size;
     pMdSeg->DangerousGetRawData(IMetadataSegment::MemBlkType::XmlMetadata, ptrData, size);
     this->parseResult = this->doc.load_buffer(ptrData, size, pugi::parse_default, encoding_utf8);
+    if (this->parseResult.status == pugi::status_out_of_memory)
+    {
+        // this does not mean that the XML is invalid
+        throw std::bad_alloc();
+    }
+
     if (this->parseResult)
     {
         this->wrapper = std::unique_ptr<XmlNodeWrapperReadonly<CCziMetadata, XmlNodeWrapperThrowExcp>>(
diff --git a/Src/libCZI/SubblockMetadata.cpp b/Src/libCZI/SubblockMetadata.cpp
index b9c34ec..b59c6c9 100644
--- a/Src/libCZI/SubblockMetadata.cpp
+++ b/Src/libCZI/SubblockMetadata.cpp
@@ -13,6 +13,12 @@ using namespace std;
 SubblockMetadata::SubblockMetadata(const char* xml, size_t xml_size)
 {
     this->parse_result_ = this->doc_.load_buffer(xml, xml_size, pugi::parse_default, pugi::encoding_utf8);
+    if (this->parse_result_.status == pugi::status_out_of_memory)
+    {
+        // this does not mean that the XML is invalid
+        throw std::bad_alloc();
+    }
+
     if (this->parse_result_)
     {
         this->wrapper_ = std::make_unique<XmlNodeWrapperReadonly<SubblockMetadata, XmlNodeWrapperThrowExcp>>(this->doc_.internal_object());
-- 
2.43.0


From cf922a472bee4d7c0a9424577569deaa56d424b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:51 +0000
Subject: [PATCH 34/70] fix: data race between CCZIReader::Close and
 concurrently executing methods on the operational flag

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..f53e487 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool> isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0


From 8d61f93a3139406ef2e2b6ab852abf73a2dacb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:51 +0000
Subject: [PATCH 35/70] fix: concurrent GetPyramidStatistics calls re-sorted
 the shared statistics without synchronisation

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 629dd24..3067963 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -169,7 +169,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
-- 
2.43.0


From b4d0afce563ac94fb7a4a916a26d9f78a566f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:09 +0000
Subject: [PATCH 36/70] fix: an unbalanced Unlock of a bitmap made a
 concurrent, legitimate Unlock in another thread fail

---
 Src/libCZI/bitmapData.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index a7a0c69..02b6755 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -59,13 +59,16 @@ namespace libCZI
 
             void Unlock() override
             {
-                const int lckCnt = std::atomic_fetch_sub(&this->lockCnt, 1);
-                if (lckCnt < 1)
+                // The decrement is only carried out if the lock-count is positive - it must not even temporarily drop below zero, because
+                // this would be visible to other threads (and have their - legitimate - calls to Unlock fail).
+                int lckCnt = std::atomic_load(&this->lockCnt);
+                do
                 {
-                    // we undo the decrement of lockCnt (from above) here
-                    std::atomic_fetch_add(&this->lockCnt, 1);
-                    throw std::logic_error("Lock/Unlock-semantic was violated.");
-                }
+                    if (lckCnt < 1)
+                    {
+                        throw std::logic_error("Lock/Unlock-semantic was violated.");
+                    }
+                } while (!std::atomic_compare_exchange_weak(&this->lockCnt, &lckCnt, lckCnt - 1));
             }
 
             int GetLockCount() const override
-- 
2.43.0


From 6978580904f0d500a952a047b90790824951f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:53 +0000
Subject: [PATCH 37/70] fix: drawing the tile border crashed when the visible
 part of a tile is one pixel wide

With 'drawTileBorder' and a visible part that is one pixel wide (and at least three
pixels high) the number of bytes to copy for the interior became negative, i.e. memcpy
was called with a huge size.
---
 Src/libCZI/BitmapOperations.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 97652ca..8b3842f 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,10 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    }
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From d778bee8728dfa7701cde590a56da54b33def2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:53 +0000
Subject: [PATCH 38/70] fix: with 'drawTileBorder' the interior of a tile was
 composed shifted by one pixel

The interior of the tile (i.e. inside the border) was copied to x=1 from x=0 of the source;
the mask-aware variant copies the pixels in place.
---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 8b3842f..d27569a 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -42,7 +42,7 @@ namespace libCZI
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
                     if (width > 2)
                     {
-                        memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
                     }
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
-- 
2.43.0


From 2e203db82b2a1301036026c1c77d9b0080a048cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 39/70] fix: file input stream: continue partial and
 interrupted reads instead of reporting them as end of file or error

---
 .../StreamsLib/preadfileinputstream.cpp       | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/StreamsLib/preadfileinputstream.cpp b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
index 5959f10..1b449c5 100644
--- a/Src/libCZI/StreamsLib/preadfileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
@@ -6,6 +6,7 @@
 
 #if LIBCZI_USE_PREADPWRITEBASED_STREAMIMPL
 
+#include <cerrno>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/stat.h>   // required on BSD
@@ -42,18 +43,35 @@ PreadFileInputStream::~PreadFileInputStream()
 
 /*virtual*/void PreadFileInputStream::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
-    if (bytesRead < 0)
+    // Note that 'pread' may legitimately transfer fewer bytes than requested (on Linux it transfers at most 0x7ffff000 bytes
+    //  with one call), and that it may be interrupted by a signal - only a return value of zero indicates the end of the file.
+    std::uint64_t totalBytesRead = 0;
+    for (;;)
     {
-        auto err = errno;
-        std::stringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t bytesRead = pread(this->fileDescriptor, static_cast<char*>(pv) + totalBytesRead, size - totalBytesRead, offset + totalBytesRead);
+        if (bytesRead < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            std::stringstream ss;
+            ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        totalBytesRead += bytesRead;
+        if (bytesRead == 0 || totalBytesRead >= size)
+        {
+            break;
+        }
     }
 
     if (ptrBytesRead != nullptr)
     {
-        *ptrBytesRead = bytesRead;
+        *ptrBytesRead = totalBytesRead;
     }
 }
 
-- 
2.43.0


From 1ef64f7fe42bc0609607fffe0cf90360841cd6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 40/70] fix: file output and input-output streams: continue
 partial and interrupted transfers

---
 Src/libCZI/StreamImpl.cpp | 91 ++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 21 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index f1388ed..e7d1f0f 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -55,18 +55,34 @@ COutputStreamImplPwrite::~COutputStreamImplPwrite()
 
 /*virtual*/void COutputStreamImplPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
-    if (bytesWritten < 0)
+    // Note that 'pwrite' may legitimately transfer fewer bytes than requested, and that it may be interrupted by a signal.
+    std::uint64_t totalBytesWritten = 0;
+    for (;;)
     {
-        auto err = errno;
-        std::stringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t bytesWritten = pwrite(this->fileDescriptor, static_cast<const char*>(pv) + totalBytesWritten, size - totalBytesWritten, offset + totalBytesWritten);
+        if (bytesWritten < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            std::stringstream ss;
+            ss << "Error writing to file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        totalBytesWritten += bytesWritten;
+        if (bytesWritten == 0 || totalBytesWritten >= size)
+        {
+            break;
+        }
     }
 
     if (ptrBytesWritten != nullptr)
     {
-        *ptrBytesWritten = bytesWritten;
+        *ptrBytesWritten = totalBytesWritten;
     }
 }
 #endif
@@ -282,35 +298,68 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
-    if (bytesRead < 0)
+    // Note that 'pread' may legitimately transfer fewer bytes than requested (on Linux it transfers at most 0x7ffff000 bytes
+    //  with one call), and that it may be interrupted by a signal - only a return value of zero indicates the end of the file.
+    std::uint64_t totalBytesRead = 0;
+    for (;;)
     {
-        auto err = errno;
-        ostringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t bytesRead = pread(this->fileDescriptor, static_cast<char*>(pv) + totalBytesRead, size - totalBytesRead, offset + totalBytesRead);
+        if (bytesRead < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            ostringstream ss;
+            ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        totalBytesRead += bytesRead;
+        if (bytesRead == 0 || totalBytesRead >= size)
+        {
+            break;
+        }
     }
 
     if (ptrBytesRead != nullptr)
     {
-        *ptrBytesRead = bytesRead;
+        *ptrBytesRead = totalBytesRead;
     }
 }
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
-    if (bytesWritten < 0)
+    // Note that 'pwrite' may legitimately transfer fewer bytes than requested, and that it may be interrupted by a signal.
+    std::uint64_t totalBytesWritten = 0;
+    for (;;)
     {
-        auto err = errno;
-        ostringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t bytesWritten = pwrite(this->fileDescriptor, static_cast<const char*>(pv) + totalBytesWritten, size - totalBytesWritten, offset + totalBytesWritten);
+        if (bytesWritten < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            ostringstream ss;
+            ss << "Error writing to file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        totalBytesWritten += bytesWritten;
+        if (bytesWritten == 0 || totalBytesWritten >= size)
+        {
+            break;
+        }
     }
 
     if (ptrBytesWritten != nullptr)
     {
-        *ptrBytesWritten = bytesWritten;
+        *ptrBytesWritten = totalBytesWritten;
     }
 }
 #endif
-- 
2.43.0


From 688db0a10eb4f8c6ca973245378a8c115e579852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 41/70] fix: file streams: a descriptor with the value 0 is
 closed like any other

---
 Src/libCZI/StreamImpl.cpp                      | 8 ++++----
 Src/libCZI/StreamsLib/preadfileinputstream.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index e7d1f0f..aede5ac 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -23,7 +23,7 @@ using namespace libCZI::detail;
 #if LIBCZI_USE_PREADPWRITEBASED_STREAMIMPL
 
 COutputStreamImplPwrite::COutputStreamImplPwrite(const wchar_t* filename, bool overwriteExisting)
-    : fileDescriptor(0)
+    : fileDescriptor(-1)
 {
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
@@ -47,7 +47,7 @@ COutputStreamImplPwrite::COutputStreamImplPwrite(const wchar_t* filename, bool o
 
 COutputStreamImplPwrite::~COutputStreamImplPwrite()
 {
-    if (this->fileDescriptor != 0)
+    if (this->fileDescriptor >= 0)
     {
         close(this->fileDescriptor);
     }
@@ -272,7 +272,7 @@ void CSimpleOutputStreamStreams::Write(std::uint64_t offset, const void* pv, std
 
 #if LIBCZI_USE_PREADPWRITEBASED_STREAMIMPL
 CInputOutputStreamImplPreadPwrite::CInputOutputStreamImplPreadPwrite(const wchar_t* filename)
-    : fileDescriptor(0)
+    : fileDescriptor(-1)
 {
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
@@ -290,7 +290,7 @@ CInputOutputStreamImplPreadPwrite::CInputOutputStreamImplPreadPwrite(const wchar
 
 CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 {
-    if (this->fileDescriptor != 0)
+    if (this->fileDescriptor >= 0)
     {
         close(this->fileDescriptor);
     }
diff --git a/Src/libCZI/StreamsLib/preadfileinputstream.cpp b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
index 1b449c5..6461ddc 100644
--- a/Src/libCZI/StreamsLib/preadfileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
@@ -35,7 +35,7 @@ PreadFileInputStream::PreadFileInputStream(const wchar_t* filename)
 
 PreadFileInputStream::~PreadFileInputStream()
 {
-    if (this->fileDescriptor != 0)
+    if (this->fileDescriptor >= 0)
     {
         close(this->fileDescriptor);
     }
-- 
2.43.0


From 4c75de6273bf47553d40655271b579dc79bdeec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:39 +0000
Subject: [PATCH 42/70] fix: C-runtime file input stream: report an I/O error
 instead of treating it as end of file

---
 Src/libCZI/StreamsLib/simplefileinputstream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Src/libCZI/StreamsLib/simplefileinputstream.cpp b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
index 084d0c8..0d01de8 100644
--- a/Src/libCZI/StreamsLib/simplefileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
@@ -75,7 +75,16 @@ SimpleFileInputStream::~SimpleFileInputStream()
         throw std::runtime_error(ss.str());
     }
 
+    clearerr(this->fp_);
     const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);
+    if (bytesRead < size && ferror(this->fp_) != 0)
+    {
+        const auto err = errno;
+        stringstream ss;
+        ss << "Error reading " << size << " bytes at file-position " << offset << ", errno=<<" << err << ".";
+        throw std::runtime_error(ss.str());
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
-- 
2.43.0


From b77a04517f83bed01cbd15d5576c5569684a285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:39 +0000
Subject: [PATCH 43/70] fix: memory stream: reading past the end reports zero
 bytes instead of throwing

---
 Src/libCZI/StreamImpl.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index aede5ac..f14510c 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -161,11 +161,15 @@ CStreamImplInMemory::CStreamImplInMemory(libCZI::IAttachment* attachement)
         throw std::invalid_argument("Pointer cannot be null");
     }
 
+    // reading past the end of the data is not an error - as with all streams, the number of bytes actually read is reported
     if (offset >= this->dataBufferSize)
     {
-        std::stringstream ss;
-        ss << "Error reading from memory at offset " << offset << " -> requested size: " << size << " bytes, which exceeds actual data size " << this->dataBufferSize << " bytes.";
-        throw std::runtime_error(ss.str());
+        if (ptrBytesRead != nullptr)
+        {
+            *ptrBytesRead = 0;
+        }
+
+        return;
     }
 
     // Read only to the end of buffer size
-- 
2.43.0


From b7f7dc6cf61b25472135a1b574b6f5892f53ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:27 +0000
Subject: [PATCH 44/70] fix: HTTP stream: refusing surplus data must not be
 mistaken for success when the chunk has 23 bytes

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 7177ad4..d60970f 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -305,7 +305,9 @@ CurlHttpInputStream::~CurlHttpInputStream()
 
     if (write_data_context->count_data_received + total_size > write_data_context->size)
     {
-        return CURLE_WRITE_ERROR;
+        // any value different to the number of bytes passed in signals an error to libcurl - the value returned here must therefore
+        //  be one which cannot be confused with the size of a chunk of data
+        return 0;
     }
 
     memcpy(
-- 
2.43.0


From 4c493ca9ee3e8ec66298aae41522f3ae4e5ec688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:32 +0000
Subject: [PATCH 45/70] fix: HTTP stream: error responses, unfollowed
 redirections and ignored ranges are not data; a range beyond the end gives
 zero bytes

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index d60970f..b1e2990 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -138,6 +138,11 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
     return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_WRITEFUNCTION, CurlHttpInputStream::WriteData);
     ThrowIfCurlSetOptError(return_code, "CURLOPT_WRITEFUNCTION");
 
+    // if the server reports an error (i.e. a status code of 400 or above), we want the request to fail - otherwise we would receive
+    //  the body of the error response as if it were the data requested
+    return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_FAILONERROR, 1L);
+    ThrowIfCurlSetOptError(return_code, "CURLOPT_FAILONERROR");
+
     auto property = property_bag.find(StreamsFactory::StreamProperties::kCurlHttp_Proxy);
     if (property != property_bag.end())
     {
@@ -271,12 +276,33 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
         ThrowIfCurlSetOptError(return_code, "CURLOPT_WRITEDATA");
 
         return_code = curl_easy_perform(this->curl_handle_);
-        if (return_code != CURLE_OK)
+
+        long response_code = 0;
+        curl_easy_getinfo(this->curl_handle_, CURLINFO_RESPONSE_CODE, &response_code);
+
+        if (return_code == CURLE_HTTP_RETURNED_ERROR && response_code == 416)
+        {
+            // "range not satisfiable" - the range requested is beyond the end of the resource, which is not considered to be an error
+            write_data_context.count_data_received = 0;
+        }
+        else if (return_code != CURLE_OK)
         {
             ss = stringstream{};
             ss << "curl_easy_perform() failed with error code " << return_code << " (" << curl_easy_strerror(return_code) << ")";
             throw runtime_error(ss.str());
         }
+        else if (response_code >= 300)
+        {
+            // e.g. a redirection which was not followed - what we received is not the resource
+            ss = stringstream{};
+            ss << "The server responded with the unexpected status code " << response_code << ".";
+            throw runtime_error(ss.str());
+        }
+        else if (response_code == 200 && offset > 0)
+        {
+            // the server ignored the range we requested, and sent the resource from its beginning
+            throw runtime_error("The server does not support range requests.");
+        }
 
         if (ptrBytesRead != nullptr)
         {
-- 
2.43.0


From c4b3e867dd5c328d9eaef414ead84bb56323cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:58 +0000
Subject: [PATCH 46/70] fix: C API: document-info handles must not pass for
 attachment handles (same magic value)

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..f10c1c7 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x5B1C9E36u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From 5e69094b5dc47a55b4d59a424110d2b4e94ca419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:58 +0000
Subject: [PATCH 47/70] fix: C API: reject missing handles and missing output
 arguments instead of dereferencing them

---
 Src/libCZIAPI/src/libCZIApi.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..7d4c7fe 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -560,7 +560,7 @@ LibCZIApiErrorCode libCZI_GetStreamClassInfo(std::int32_t index, InputStreamClas
 
 LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const char* creation_property_bag, const char* stream_identifier, InputStreamObjectHandle* stream_object)
 {
-    if (stream_class_name == nullptr || stream_object == nullptr)
+    if (stream_class_name == nullptr || stream_identifier == nullptr || stream_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -759,7 +759,7 @@ namespace
 
 LibCZIApiErrorCode libCZI_CreateInputStreamFromExternal(const ExternalInputStreamStructInterop* external_input_stream_struct, InputStreamObjectHandle* stream_object)
 {
-    if (external_input_stream_struct == nullptr || stream_object == nullptr)
+    if (external_input_stream_struct == nullptr || external_input_stream_struct->read_function == nullptr || external_input_stream_struct->close_function == nullptr || stream_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1104,7 +1104,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1563,7 +1563,7 @@ LibCZIApiErrorCode libCZI_ReleaseOutputStream(OutputStreamObjectHandle output_st
 
 LibCZIApiErrorCode libCZI_CreateOutputStreamFromExternal(const ExternalOutputStreamStructInterop* external_output_stream_struct, OutputStreamObjectHandle* output_stream_object)
 {
-    if (external_output_stream_struct == nullptr || output_stream_object == nullptr)
+    if (external_output_stream_struct == nullptr || external_output_stream_struct->write_function == nullptr || external_output_stream_struct->close_function == nullptr || output_stream_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1982,6 +1982,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
     for (int i = 0; i < channelCount; ++i)
     {
+        if (source_bitmaps[i] == kInvalidObjectHandle)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
         if (!shared_bitmap_wrapping_object->IsValid())
         {
-- 
2.43.0


From 5f9162b98801242f1573d84b94af13ce52ff5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:41 +0000
Subject: [PATCH 48/70] fix: C API: no exception may leave an exported function

---
 Src/libCZIAPI/src/libCZIApi.cpp | 270 +++++++++++++++++++-------------
 1 file changed, 164 insertions(+), 106 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 7d4c7fe..652d2c9 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -177,16 +177,23 @@ LibCZIApiErrorCode libCZI_CreateReader(CziReaderObjectHandle* reader_object)
 
     *reader_object = kInvalidObjectHandle;
 
-    auto reader = CreateCZIReader();
-    if (!reader)
+    try
     {
-        return LibCZIApi_ErrorCode_OutOfMemory;
-    }
+        auto reader = CreateCZIReader();
+        if (!reader)
+        {
+            return LibCZIApi_ErrorCode_OutOfMemory;
+        }
 
-    auto shared_czi_reader_wrapping_object = new SharedPtrWrapper<ICZIReader>{ reader };
-    *reader_object = reinterpret_cast<CziReaderObjectHandle>(shared_czi_reader_wrapping_object);
+        auto shared_czi_reader_wrapping_object = new SharedPtrWrapper<ICZIReader>{ reader };
+        *reader_object = reinterpret_cast<CziReaderObjectHandle>(shared_czi_reader_wrapping_object);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_ReaderOpen(CziReaderObjectHandle reader_object, const ReaderOpenInfoInterop* open_info)
@@ -534,8 +541,15 @@ LibCZIApiErrorCode libCZI_GetStreamClassesCount(std::int32_t* count)
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    *count = StreamsFactory::GetStreamClassesCount();
-    return LibCZIApi_ErrorCode_OK;
+    try
+    {
+        *count = StreamsFactory::GetStreamClassesCount();
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_GetStreamClassInfo(std::int32_t index, InputStreamClassInfoInterop* input_stream_class_info)
@@ -565,20 +579,21 @@ LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    StreamsFactory::CreateStreamInfo create_stream_info;
-
-    if (creation_property_bag != nullptr && *creation_property_bag != '\0')
+    *stream_object = kInvalidObjectHandle;
+    try
     {
-        if (!ParameterHelpers::TryParseInputStreamCreationPropertyBag(creation_property_bag, &create_stream_info.property_bag))
+        StreamsFactory::CreateStreamInfo create_stream_info;
+
+        if (creation_property_bag != nullptr && *creation_property_bag != '\0')
         {
-            return LibCZIApi_ErrorCode_InvalidArgument;
+            if (!ParameterHelpers::TryParseInputStreamCreationPropertyBag(creation_property_bag, &create_stream_info.property_bag))
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
         }
-    }
 
-    create_stream_info.class_name = stream_class_name;
+        create_stream_info.class_name = stream_class_name;
 
-    try
-    {
         shared_ptr<libCZI::IStream> stream = StreamsFactory::CreateStream(create_stream_info, stream_identifier);
         if (!stream)
         {
@@ -765,15 +780,22 @@ LibCZIApiErrorCode libCZI_CreateInputStreamFromExternal(const ExternalInputStrea
     }
 
     *stream_object = kInvalidObjectHandle;
-    auto stream = make_shared<InputStreamWrapper>(*external_input_stream_struct);
-    if (!stream)
+    try
+    {
+        auto stream = make_shared<InputStreamWrapper>(*external_input_stream_struct);
+        if (!stream)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
+        auto shared_stream_wrapping_object = new SharedPtrWrapper<IStream>{ stream };
+        *stream_object = reinterpret_cast<InputStreamObjectHandle>(shared_stream_wrapping_object);
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    auto shared_stream_wrapping_object = new SharedPtrWrapper<IStream>{ stream };
-    *stream_object = reinterpret_cast<InputStreamObjectHandle>(shared_stream_wrapping_object);
-    return LibCZIApi_ErrorCode_OK;
 }
 
 LibCZIApiErrorCode libCZI_ReleaseInputStream(InputStreamObjectHandle stream_object)
@@ -970,12 +992,19 @@ LibCZIApiErrorCode libCZI_BitmapGetInfo(BitmapObjectHandle bitmap_object, Bitmap
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    const auto extent = shared_bitmap_wrapping_object->shared_ptr_->GetSize();
-    bitmap_info->pixelType = static_cast<int32_t>(shared_bitmap_wrapping_object->shared_ptr_->GetPixelType());
-    bitmap_info->width = extent.w;
-    bitmap_info->height = extent.h;
+    try
+    {
+        const auto extent = shared_bitmap_wrapping_object->shared_ptr_->GetSize();
+        bitmap_info->pixelType = static_cast<int32_t>(shared_bitmap_wrapping_object->shared_ptr_->GetPixelType());
+        bitmap_info->width = extent.w;
+        bitmap_info->height = extent.h;
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_BitmapLock(BitmapObjectHandle bitmap_object, BitmapLockInfoInterop* lockInfo)
@@ -990,12 +1019,19 @@ LibCZIApiErrorCode libCZI_BitmapLock(BitmapObjectHandle bitmap_object, BitmapLoc
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    auto lock_info = shared_bitmap_wrapping_object->shared_ptr_->Lock();
-    lockInfo->ptrData = lock_info.ptrData;
-    lockInfo->ptrDataRoi = lock_info.ptrDataRoi;
-    lockInfo->stride = lock_info.stride;
-    lockInfo->size = lock_info.size;
-    return LibCZIApi_ErrorCode_OK;
+    try
+    {
+        auto lock_info = shared_bitmap_wrapping_object->shared_ptr_->Lock();
+        lockInfo->ptrData = lock_info.ptrData;
+        lockInfo->ptrDataRoi = lock_info.ptrDataRoi;
+        lockInfo->stride = lock_info.stride;
+        lockInfo->size = lock_info.size;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_BitmapUnlock(BitmapObjectHandle bitmap_object)
@@ -1073,32 +1109,39 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    const auto extent = shared_bitmap_wrapping_object->shared_ptr_->GetSize();
-    if (width != extent.w || height != extent.h)
+    try
     {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        const auto extent = shared_bitmap_wrapping_object->shared_ptr_->GetSize();
+        if (width != extent.w || height != extent.h)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    if (shared_bitmap_wrapping_object->shared_ptr_->GetPixelType() != static_cast<PixelType>(pixel_type))
-    {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        if (shared_bitmap_wrapping_object->shared_ptr_->GetPixelType() != static_cast<PixelType>(pixel_type))
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    size_t line_length = static_cast<size_t>(Utils::GetBytesPerPixel(static_cast<PixelType>(pixel_type))) * width;
-    if (stride < line_length)
-    {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        size_t line_length = static_cast<size_t>(Utils::GetBytesPerPixel(static_cast<PixelType>(pixel_type))) * width;
+        if (stride < line_length)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    ScopedBitmapLockerSP lckBm{ shared_bitmap_wrapping_object->shared_ptr_ };
-    for (std::uint32_t y = 0; y < height; ++y)
+        ScopedBitmapLockerSP lckBm{ shared_bitmap_wrapping_object->shared_ptr_ };
+        for (std::uint32_t y = 0; y < height; ++y)
+        {
+            const std::uint8_t* ptrSourceLine = static_cast<const std::uint8_t*>(lckBm.ptrDataRoi) + y * static_cast<size_t>(lckBm.stride);
+            std::uint8_t* ptrDestinationLine = static_cast<std::uint8_t*>(ptr) + y * static_cast<size_t>(stride);
+            memcpy(ptrDestinationLine, ptrSourceLine, line_length);
+        }
+
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
-        const std::uint8_t* ptrSourceLine = static_cast<const std::uint8_t*>(lckBm.ptrDataRoi) + y * static_cast<size_t>(lckBm.stride);
-        std::uint8_t* ptrDestinationLine = static_cast<std::uint8_t*>(ptr) + y * static_cast<size_t>(stride);
-        memcpy(ptrDestinationLine, ptrSourceLine, line_length);
+        return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    return LibCZIApi_ErrorCode_OK;
 }
 
 //****************************************************************************************************
@@ -1115,34 +1158,41 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    size_t size;
-    auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
-    if (!data)
+    try
     {
-        return LibCZIApi_ErrorCode_UnspecifiedError;
-    }
+        size_t size;
+        auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
+        if (!data)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
 
-    // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
-    //  one byte more
-    size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
-    {
-        ++size_to_allocate;
-    }
+        // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
+        //  one byte more
+        size_t size_to_allocate = size;
+        if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+        {
+            ++size_to_allocate;
+        }
 
-    uint8_t* allocated_memory = static_cast<uint8_t*>(ParameterHelpers::AllocateMemory(size_to_allocate));
-    if (allocated_memory == nullptr)
-    {
-        return LibCZIApi_ErrorCode_OutOfMemory;
-    }
+        uint8_t* allocated_memory = static_cast<uint8_t*>(ParameterHelpers::AllocateMemory(size_to_allocate));
+        if (allocated_memory == nullptr)
+        {
+            return LibCZIApi_ErrorCode_OutOfMemory;
+        }
 
-    memcpy(allocated_memory, data.get(), size);
-    allocated_memory[size_to_allocate - 1] = '\0';
+        memcpy(allocated_memory, data.get(), size);
+        allocated_memory[size_to_allocate - 1] = '\0';
 
-    metadata_as_xml_interop->data = allocated_memory;
-    metadata_as_xml_interop->size = size;
+        metadata_as_xml_interop->data = allocated_memory;
+        metadata_as_xml_interop->size = size;
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_MetadataSegmentGetCziDocumentInfo(MetadataSegmentObjectHandle metadata_segment_object, CziDocumentInfoHandle* czi_document_info_handle)
@@ -1569,15 +1619,22 @@ LibCZIApiErrorCode libCZI_CreateOutputStreamFromExternal(const ExternalOutputStr
     }
 
     *output_stream_object = kInvalidObjectHandle;
-    auto stream = make_shared<OutputStreamWrapper>(*external_output_stream_struct);
-    if (!stream)
+    try
+    {
+        auto stream = make_shared<OutputStreamWrapper>(*external_output_stream_struct);
+        if (!stream)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
+        auto shared_output_stream_wrapping_object = new SharedPtrWrapper<IOutputStream>{ stream };
+        *output_stream_object = reinterpret_cast<OutputStreamObjectHandle>(shared_output_stream_wrapping_object);
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    auto shared_output_stream_wrapping_object = new SharedPtrWrapper<IOutputStream>{ stream };
-    *output_stream_object = reinterpret_cast<OutputStreamObjectHandle>(shared_output_stream_wrapping_object);
-    return LibCZIApi_ErrorCode_OK;
 }
 
 //****************************************************************************************************
@@ -1591,10 +1648,10 @@ LibCZIApiErrorCode libCZI_CreateWriter(CziWriterObjectHandle* writer_object, con
 
     *writer_object = kInvalidObjectHandle;
 
-    CZIWriterOptions writer_options;
-    const bool writer_options_valid = ParameterHelpers::TryParseCZIWriterOptions(options, writer_options);
     try
     {
+        CZIWriterOptions writer_options;
+        const bool writer_options_valid = ParameterHelpers::TryParseCZIWriterOptions(options, writer_options);
         const auto writer = writer_options_valid ? libCZI::CreateCZIWriter(&writer_options) : libCZI::CreateCZIWriter();
         if (!writer)
         {
@@ -1672,10 +1729,10 @@ LibCZIApiErrorCode libCZI_WriterCreate(CziWriterObjectHandle writer_object, Outp
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    std::shared_ptr<libCZI::ICziWriterInfo> czi_writer_info;
-    const bool czi_writer_info_valid = ParameterHelpers::TryParseCZIWriterInfo(parameters, czi_writer_info);
     try
     {
+        std::shared_ptr<libCZI::ICziWriterInfo> czi_writer_info;
+        const bool czi_writer_info_valid = ParameterHelpers::TryParseCZIWriterInfo(parameters, czi_writer_info);
         if (czi_writer_info_valid)
         {
             shared_writer_wrapping_object->shared_ptr_->Create(shared_output_stream_wrapping_object->shared_ptr_, czi_writer_info);
@@ -1923,11 +1980,12 @@ LibCZIApiErrorCode libCZI_SingleChannelTileAccessorGet(SingleChannelScalingTileA
     }
 
     IntRect libczi_roi{ roi->x, roi->y, roi->w, roi->h };
-    const auto libczi_coordinate = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(*coordinate);
-    const auto libczi_options = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(options);
 
     try
     {
+        const auto libczi_coordinate = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(*coordinate);
+        const auto libczi_options = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(options);
+
         auto result_bitmap = shared_accessor_wrapping_object->shared_ptr_->Get(libczi_roi, &libczi_coordinate, zoom, &libczi_options);
 
         auto shared_bitmap_wrapping_object = new SharedPtrWrapper<IBitmapData>{ result_bitmap };
@@ -1977,28 +2035,28 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    unique_ptr<IBitmapData* []> source_bitmaps_data{ new IBitmapData * [channelCount] };
-    unique_ptr<Compositors::ChannelInfo[]> channel_info_data{ new Compositors::ChannelInfo[channelCount] };
-
-    for (int i = 0; i < channelCount; ++i)
+    try
     {
-        if (source_bitmaps[i] == kInvalidObjectHandle)
-        {
-            return LibCZIApi_ErrorCode_InvalidArgument;
-        }
+        unique_ptr<IBitmapData* []> source_bitmaps_data{ new IBitmapData * [channelCount] };
+        unique_ptr<Compositors::ChannelInfo[]> channel_info_data{ new Compositors::ChannelInfo[channelCount] };
 
-        auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
-        if (!shared_bitmap_wrapping_object->IsValid())
+        for (int i = 0; i < channelCount; ++i)
         {
-            return LibCZIApi_ErrorCode_InvalidHandle;
-        }
+            if (source_bitmaps[i] == kInvalidObjectHandle)
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
 
-        source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
-        channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
-    }
+            auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
+            if (!shared_bitmap_wrapping_object->IsValid())
+            {
+                return LibCZIApi_ErrorCode_InvalidHandle;
+            }
+
+            source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
+            channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
+        }
 
-    try
-    {
         auto composed_bitmap = Compositors::ComposeMultiChannel_Bgr24(channelCount, source_bitmaps_data.get(), channel_info_data.get());
         auto shared_bitmap_wrapping_object = new SharedPtrWrapper<IBitmapData>{ composed_bitmap };
         *bitmap_object = reinterpret_cast<BitmapObjectHandle>(shared_bitmap_wrapping_object);
-- 
2.43.0


From 1250a1681851ec5b85251010612c53bcf245fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 49/70] fix: C API: a string which cannot be allocated has to
 be reported as an error

---
 Src/libCZIAPI/src/libCZIApi.cpp        | 58 +++++++++++++++++++-------
 Src/libCZIAPI/src/parameterhelpers.cpp |  6 +++
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 652d2c9..8f83f67 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -48,6 +48,12 @@ namespace
         return result;
     }
 
+    /// Allocates a string (to be freed with libCZI_Free), which is freed again unless the ownership is released.
+    std::unique_ptr<char, void(*)(void*)> AllocStringWithOwnership(const std::string& text)
+    {
+        return std::unique_ptr<char, void(*)(void*)>(ParameterHelpers::AllocString(text), &ParameterHelpers::FreeMemory);
+    }
+
     void CopyFromAttachmentInfoToAttachmentInfoInterop(const libCZI::AttachmentInfo& source, AttachmentInfoInterop& destination)
     {
         static_assert(sizeof(libCZI::GUID) == sizeof(destination.guid), "sizeof(..) of the GUID-structure is found to differ from expectation");
@@ -158,14 +164,27 @@ LibCZIApiErrorCode libCZI_GetLibCZIBuildInformation(LibCZIBuildInformationIntero
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    BuildInformation info;
-    GetLibCZIBuildInformation(info);
-    build_info->compilerIdentification = ParameterHelpers::AllocString(info.compilerIdentification);
-    build_info->repositoryUrl = ParameterHelpers::AllocString(info.repositoryUrl);
-    build_info->repositoryBranch = ParameterHelpers::AllocString(info.repositoryBranch);
-    build_info->repositoryTag = ParameterHelpers::AllocString(info.repositoryTag);
+    try
+    {
+        BuildInformation info;
+        GetLibCZIBuildInformation(info);
+        auto compiler_identification = AllocStringWithOwnership(info.compilerIdentification);
+        auto repository_url = AllocStringWithOwnership(info.repositoryUrl);
+        auto repository_branch = AllocStringWithOwnership(info.repositoryBranch);
+        auto repository_tag = AllocStringWithOwnership(info.repositoryTag);
 
-    return LibCZIApi_ErrorCode_OK;
+        // only now, where nothing can fail any more, ownership is transferred to the caller
+        build_info->compilerIdentification = compiler_identification.release();
+        build_info->repositoryUrl = repository_url.release();
+        build_info->repositoryBranch = repository_branch.release();
+        build_info->repositoryTag = repository_tag.release();
+
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_CreateReader(CziReaderObjectHandle* reader_object)
@@ -559,17 +578,26 @@ LibCZIApiErrorCode libCZI_GetStreamClassInfo(std::int32_t index, InputStreamClas
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    StreamsFactory::StreamClassInfo stream_class_info;
-    const bool b = StreamsFactory::GetStreamInfoForClass(index, stream_class_info);
-    if (!b)
+    try
     {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        StreamsFactory::StreamClassInfo stream_class_info;
+        const bool b = StreamsFactory::GetStreamInfoForClass(index, stream_class_info);
+        if (!b)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    input_stream_class_info->name = ParameterHelpers::AllocString(stream_class_info.class_name);
-    input_stream_class_info->description = ParameterHelpers::AllocString(stream_class_info.short_description);
+        auto name = AllocStringWithOwnership(stream_class_info.class_name);
+        auto description = AllocStringWithOwnership(stream_class_info.short_description);
+        input_stream_class_info->name = name.release();
+        input_stream_class_info->description = description.release();
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const char* creation_property_bag, const char* stream_identifier, InputStreamObjectHandle* stream_object)
diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..9e675f0 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -9,6 +9,7 @@
 #include <rapidjson/writer.h>
 #include <regex>
 #include <iomanip>
+#include <new>
 
 using namespace std;
 
@@ -116,6 +117,11 @@ namespace
     }
 
     char* result = static_cast<char*>(AllocateMemory(size + 1));
+    if (result == nullptr)
+    {
+        throw std::bad_alloc();
+    }
+
     memcpy(result, text.c_str(), size);
     result[size] = '\0';
     return result;
-- 
2.43.0


From d70a0f251b54c171c432fa5c8ebc0fcca17a932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 50/70] fix: C API: do not hand a null pointer to memcpy for
 empty sub-block or attachment data

---
 Src/libCZIAPI/src/libCZIApi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 8f83f67..3e0fc07 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -943,7 +943,7 @@ LibCZIApiErrorCode libCZI_SubBlockGetRawData(SubBlockObjectHandle sub_block_obje
         const auto raw_data = shared_sub_block_wrapping_object->shared_ptr_->GetRawData(mem_blk_type, &actual_size);
         *size = actual_size;
 
-        if (data != nullptr)
+        if (data != nullptr && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, static_cast<uint64_t>(actual_size)));
         }
@@ -1536,7 +1536,7 @@ LibCZIApiErrorCode libCZI_AttachmentGetRawData(AttachmentObjectHandle attachment
         size_t actual_size;
         const auto raw_data = shared_attachment_wrapping_object->shared_ptr_->GetRawData(&actual_size);
         *size = actual_size;
-        if (data != nullptr)
+        if (data != nullptr && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, actual_size));
         }
-- 
2.43.0


From c0ff542dc5e4fb7a3a0b7790e5901caad18aef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 51/70] fix: C API: the error message of an external stream
 must be freed also if composing the exception fails

---
 Src/libCZIAPI/src/libCZIApi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 3e0fc07..0101e15 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -730,9 +730,9 @@ namespace
             {
                 if (error_info.error_message != kInvalidObjectHandle)
                 {
+                    const unique_ptr<void, void(*)(void*)> error_message_memory(reinterpret_cast<void*>(error_info.error_message), &ParameterHelpers::FreeMemory);
                     ostringstream error_message;
                     error_message << "Error reading from external input stream. Error code: " << error_info.error_code << ". Error message: \"" << reinterpret_cast<const char*>(error_info.error_message) << "\"";
-                    libCZI_Free(reinterpret_cast<void*>(error_info.error_message));
                     throw runtime_error(error_message.str());
                 }
                 else
@@ -781,9 +781,9 @@ namespace
             {
                 if (error_info.error_message != kInvalidObjectHandle)
                 {
+                    const unique_ptr<void, void(*)(void*)> error_message_memory(reinterpret_cast<void*>(error_info.error_message), &ParameterHelpers::FreeMemory);
                     ostringstream error_message;
                     error_message << "Error reading from external input stream. Error code: " << error_info.error_code << ". Error message: \"" << reinterpret_cast<const char*>(error_info.error_message) << "\"";
-                    libCZI_Free(reinterpret_cast<void*>(error_info.error_message));
                     throw runtime_error(error_message.str());
                 }
                 else
-- 
2.43.0


From ad71289cf7b59055e666e7d427147a2eef8b19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 52/70] fix: C API: a compressed sub-block has to be stored
 with its compression mode

---
 Src/libCZIAPI/src/libCZIApi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 0101e15..94fa548 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1825,6 +1825,7 @@ namespace
         add_sub_block_info_mem_ptr.Clear();
 
         FillOutAddSubBlockInfoBase(add_sub_block_info, add_sub_block_info_mem_ptr);
+        add_sub_block_info_mem_ptr.compressionModeRaw = add_sub_block_info->compression_mode_raw;
 
         add_sub_block_info_mem_ptr.ptrData = add_sub_block_info->data;
         add_sub_block_info_mem_ptr.dataSize = add_sub_block_info->size_data;
-- 
2.43.0


From 4abfdc2b60a4a97cf77490f9e3abfa3f58a92266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 53/70] fix: C API: validate the size of the bitmap of an
 uncompressed sub-block

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 94fa548..3504aa4 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -11,6 +11,7 @@
 #include "parameterhelpers.h"
 
 #include <limits>
+#include <stdexcept>
 #include <algorithm>
 
 using namespace libCZI;
@@ -1807,6 +1808,16 @@ namespace
 
         FillOutAddSubBlockInfoBase(add_sub_block_info, add_sub_block_info_strided_bitmap);
 
+        if (add_sub_block_info->physical_width > 0 && add_sub_block_info->physical_height > 0)
+        {
+            const uint64_t line_size = static_cast<uint64_t>(add_sub_block_info->physical_width) * Utils::GetBytesPerPixel(add_sub_block_info_strided_bitmap.PixelType);
+            const uint64_t required_size = static_cast<uint64_t>(add_sub_block_info->physical_height - 1) * add_sub_block_info->stride + line_size;
+            if (add_sub_block_info->data == nullptr || add_sub_block_info->stride < line_size || add_sub_block_info->size_data < required_size)
+            {
+                throw invalid_argument("The bitmap-data is too small for the specified width, height, stride and pixel type.");
+            }
+        }
+
         add_sub_block_info_strided_bitmap.strideBitmap = add_sub_block_info->stride;
         add_sub_block_info_strided_bitmap.ptrBitmap = add_sub_block_info->data;
 
-- 
2.43.0


From 59e87d01b1ee44937433f1d120f87e74e4288229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 54/70] fix: C API: document information which is not available
 must not be reported as success

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 3504aa4..cb62a96 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1246,6 +1246,10 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetCziDocumentInfo(MetadataSegmentObjec
         }
 
         const auto czi_document_info = czi_metadata->GetDocumentInfo();
+        if (!czi_document_info)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
 
         *czi_document_info_handle = reinterpret_cast<CziDocumentInfoHandle>(new SharedPtrWrapper<libCZI::ICziMultiDimensionDocumentInfo>{ czi_document_info });
 
@@ -1381,6 +1385,11 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
@@ -1449,6 +1458,8 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
 
         break;
 
+        default:
+            return LibCZIApi_ErrorCode_InvalidArgument;
         }
 
         return LibCZIApi_ErrorCode_OK;
-- 
2.43.0


From 8f1635a7b2ec34b2713bddf24baf9aeabc524692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 55/70] fix: C API: unknown channels and failed allocations
 when filling out the composition information

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 9e675f0..63d9128 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -10,6 +10,7 @@
 #include <regex>
 #include <iomanip>
 #include <new>
+#include <stdexcept>
 
 using namespace std;
 
@@ -1466,6 +1467,10 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     memset(&composition_channel_info, 0, sizeof(CompositionChannelInfoInterop));
 
     const auto channel_display_settings = display_settings->GetChannelDisplaySettings(channel_index);
+    if (!channel_display_settings)
+    {
+        throw std::out_of_range("There are no display-settings for the specified channel.");
+    }
 
     if (!channel_display_settings->GetIsEnabled())
     {
@@ -1501,9 +1506,14 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
             float gamma;
             channel_display_settings->TryGetGamma(&gamma);  // TODO(JBL): handle error, must not get 'false' here
             const auto lut = libCZI::Utils::Create8BitLookUpTableFromGamma(lutSize, composition_channel_info.black_point, composition_channel_info.white_point, gamma);
-            composition_channel_info.look_up_table_element_count = lutSize;
             auto p = ParameterHelpers::AllocateMemory(lutSize);
+            if (p == nullptr)
+            {
+                throw std::bad_alloc();
+            }
+
             memcpy(p, lut.data(), lutSize);
+            composition_channel_info.look_up_table_element_count = lutSize;
             composition_channel_info.ptr_look_up_table = static_cast<uint8_t*>(p);
         }
 
@@ -1514,9 +1524,14 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
             std::vector<libCZI::IDisplaySettings::SplineData> splineData;
             channel_display_settings->TryGetSplineData(&splineData);// TODO(JBL): handle error, must not get 'false' here
             const auto lut = libCZI::Utils::Create8BitLookUpTableFromSplines(lutSize, composition_channel_info.black_point, composition_channel_info.white_point, splineData);
-            composition_channel_info.look_up_table_element_count = lutSize;
             auto p = ParameterHelpers::AllocateMemory(lutSize);
+            if (p == nullptr)
+            {
+                throw std::bad_alloc();
+            }
+
             memcpy(p, lut.data(), lutSize);
+            composition_channel_info.look_up_table_element_count = lutSize;
             composition_channel_info.ptr_look_up_table = static_cast<uint8_t*>(p);
         }
 
-- 
2.43.0


From a4bbfa319397873716cd83e26f4a935f13086a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 56/70] fix: C API: report the condenser contrast instead of
 the reflector

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 63d9128..7b10b48 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1402,7 +1402,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
 
     {
         wstring condensor_contrast;
-        if (channel_info->TryGetReflector(&condensor_contrast))
+        if (channel_info->TryGetCondenserContrast(&condensor_contrast))
         {
             const string utf8_string = libCZI::Utils::ConvertToUtf8(condensor_contrast);
             channel_object.AddMember("condensor_contrast", rapidjson::Value(utf8_string.c_str(), allocator).Move(), allocator);
-- 
2.43.0


From a3b1b7205a4f692e4b3e8475d5001ec4e7119e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:37 +0000
Subject: [PATCH 57/70] fix: document info: the Z-drive mode was parsed from
 the node with the axis direction

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 0b6e4cf..715d2d6 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -260,7 +260,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     auto zdriveModeNode = GetNodeRelativeFromNode(dimZnode, L"ZDriveMode");
     if (!zdriveModeNode.empty())
     {
-        auto s = Utilities::Trim(zaxisDirNode.text().as_string());
+        auto s = Utilities::Trim(zdriveModeNode.text().as_string());
         if (s.compare(L"Continuous") == 0)
         {
             zinfo->SetZDriveMode(IDimensionZInfo::ZDriveMode::Continuous);
-- 
2.43.0


From 5182ecf735496b808f88ce8a0a7612d2c1d600f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:17 +0000
Subject: [PATCH 58/70] fix: the bounds of the m-index are enforced also if
 there are no bounds for the dimensions

TryGetMIndexMinMax is documented to be checked against for every sub-block; it was ignored
unless bounds for the dimensions were given as well (the C interface cannot give those).
---
 Src/libCZI/CziWriter.cpp | 44 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index aec61d3..2ba49b8 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -1331,36 +1331,34 @@ void CCziWriter::ThrowIfCoordinateIsOutOfBounds(const libCZI::AddSubBlockInfo& a
 CCziWriter::SbBlkCoordinateCheckResult CCziWriter::CheckCoordinate(const libCZI::AddSubBlockInfo& addSbBlkInfo) const
 {
     const IDimBounds* dimBounds = this->info->GetDimBounds();
-    if (dimBounds == nullptr)
+    if (dimBounds != nullptr)
     {
-        return SbBlkCoordinateCheckResult::Ok;
-    }
-
-    int cntOfValidDimensionsInDimBounds = 0;
-    for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
-    {
-        int startIndex, sizeIndex;
-        if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
+        int cntOfValidDimensionsInDimBounds = 0;
+        for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
         {
-            int coord;
-            bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
-            if (b == false)
+            int startIndex, sizeIndex;
+            if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
             {
-                return SbBlkCoordinateCheckResult::InsufficientCoordinate;
-            }
+                int coord;
+                bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
+                if (b == false)
+                {
+                    return SbBlkCoordinateCheckResult::InsufficientCoordinate;
+                }
 
-            if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
-            {
-                return SbBlkCoordinateCheckResult::OutOfBounds;
-            }
+                if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
+                {
+                    return SbBlkCoordinateCheckResult::OutOfBounds;
+                }
 
-            ++cntOfValidDimensionsInDimBounds;
+                ++cntOfValidDimensionsInDimBounds;
+            }
         }
-    }
 
-    if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
-    {
-        return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
+        {
+            return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        }
     }
 
     int mMin, mMax;
-- 
2.43.0


From d0b70fed7b14b81238ff19b9a932b10a60e9d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:49 +0000
Subject: [PATCH 59/70] fix: negative time zone offsets are written with two
 digits

XmlDateTime::ToXmlString gave e.g. '-5:30', which is not a valid xs:dateTime and which
XmlDateTime::TryParse does not accept.
---
 Src/libCZI/CziMetadataBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 4242f62..ceaf5d2 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -4,6 +4,7 @@
 
 #include "CziMetadataBuilder.h"
 #include "utilities.h"
+#include <cstdlib>
 #include <regex>
 #include <codecvt>
 #include <iomanip>
@@ -618,7 +619,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
     else if (this->HasTimeZoneOffset())
     {
-        ss << ((this->offsetHours >= 0) ? "+" : "") << setw(2) << this->offsetHours << ':' << setw(2) << this->offsetMinutes;
+        ss << ((this->offsetHours >= 0) ? '+' : '-') << setw(2) << std::abs(this->offsetHours) << ':' << setw(2) << this->offsetMinutes;
     }
 
     return ss.str();
-- 
2.43.0


From b5be1552b55313b36335f00ed70700f8e5333dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:20 +0000
Subject: [PATCH 60/70] fix: do not pass wide characters to isspace/isxdigit

The argument of these functions has to be representable as unsigned char; a character beyond
that (e.g. U+E0041) in a color, number or list of the metadata gave an out-of-bounds access.
---
 Src/libCZI/CziDisplaySettings.cpp       | 6 +++---
 Src/libCZI/CziMetadata.cpp              | 3 ++-
 Src/libCZI/CziMetadataDocumentInfo.cpp  | 7 ++++---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 9 +++++----
 Src/libCZI/utilities.cpp                | 3 ++-
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/Src/libCZI/CziDisplaySettings.cpp b/Src/libCZI/CziDisplaySettings.cpp
index 6661f86..afe0831 100644
--- a/Src/libCZI/CziDisplaySettings.cpp
+++ b/Src/libCZI/CziDisplaySettings.cpp
@@ -2,7 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
-#include <cctype>
+#include <cwctype>
 #include "CziDisplaySettings.h"
 #include "splines.h"
 #include "utilities.h"
@@ -32,7 +32,7 @@ public:
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (iswspace(c))
                 {
                     ++szString;
                     continue;
@@ -55,7 +55,7 @@ public:
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (iswspace(c))
                 {
                     ++szString;
                     continue;
diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index fb9eebe..5553cd0 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -4,6 +4,7 @@
 
 #include "CziMetadata.h"
 #include "CziMetadataDocumentInfo.h"
+#include <cwctype>
 
 using namespace libCZI::detail::pugi;
 using namespace libCZI;
@@ -123,7 +124,7 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
             // where we stopped parsing, we expect to find only spaces - otherwise we have a parse-error and return false
             while (posFirstCharNotParsed < str.length())
             {
-                if (!isspace(str[posFirstCharNotParsed]))
+                if (!iswspace(str[posFirstCharNotParsed]))
                 {
                     return false;
                 }
diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 715d2d6..995d068 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -5,6 +5,7 @@
 #include "CziMetadataDocumentInfo.h"
 
 #include <cstddef>
+#include <cwctype>
 #include <utility>
 #include "CziDimensionInfo.h"
 #include "CziDisplaySettings.h"
@@ -290,7 +291,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
             if (parsedOk == true)
             {
-                if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                 {
                     parsedOk = false;
                 }
@@ -344,7 +345,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
@@ -428,7 +429,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 9b99814..046a3f1 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
 #include <limits>
+#include <cwctype>
 #include "CziMetadataDocumentInfo.h"
 #include "CziMetadataDocumentInfo2.h"
 
@@ -1815,12 +1816,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
@@ -1852,12 +1853,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..386c1bb 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -8,6 +8,7 @@
 #include <codecvt>
 #include <sstream>
 #include <cstring>
+#include <cwctype>
 #include <array>
 #if LIBCZI_WINDOWSAPI_AVAILABLE || LIBCZI_WINDOWS_UWPAPI_AVAILABLE
 #include <Windows.h>
@@ -234,7 +235,7 @@ tString trimImpl(const tString& str, const tString& whitespace)
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
         for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]))
             {
                 return false;
             }
-- 
2.43.0


From ed7281198dbae3512e60ccc3907c0dbfe5e10cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:42 +0000
Subject: [PATCH 61/70] fix: values of the document information are not
 truncated silently if memory is exhausted

A string stream swallows bad_alloc unless told otherwise; the truncated XPath expression selected
another node (and the scaling was reported as unknown or 0), the truncated texts were returned.
---
 Src/libCZI/CziMetadataBuilder.cpp      | 1 +
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 ++
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index ceaf5d2..bfc0b17 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -611,6 +611,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
 
     stringstream ss;
+    ss.exceptions(std::ios_base::badbit);   // do not return a truncated text
     ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 995d068..1dc1ab9 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -112,6 +112,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     for (const auto d : dimScalingData)
     {
         wstringstream ss;
+        ss.exceptions(std::ios_base::badbit);   // do not continue with a truncated text
         ss << L"Items/Distance[@Id='" << d.dimChar << L"']/Value";
         auto nodeScalingValue = np.select_node(ss.str().c_str());
         if (!nodeScalingValue.node().empty())
@@ -155,6 +156,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     for (const auto d : dimScalingData)
     {
         wstringstream ss;
+        ss.exceptions(std::ios_base::badbit);   // do not continue with a truncated text
         ss << L"Items/Distance[@Id='" << d.dimChar << L"']/Value";
         auto nodeScalingValue = np.select_node(ss.str().c_str());
         if (!nodeScalingValue.node().empty())
diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 7b10b48..e416075 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1359,6 +1359,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
         if (channel_info->TryGetExposureTime(&exposure_time))
         {
             ostringstream string_stream;
+            string_stream.exceptions(std::ios_base::badbit);   // do not continue with a truncated text
             if (exposure_time.singleValue)
             {
                 string_stream << exposure_time.startOrSingleValue;
@@ -1434,6 +1435,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     {
         spectrum_characteristics_json_object.AddMember("type", "Ranges", allocator);
         ostringstream string_stream;
+        string_stream.exceptions(std::ios_base::badbit);   // do not continue with a truncated text
         bool is_first = true;
         for (const auto& range : spectrum_characteristics.ranges)
         {
-- 
2.43.0


From 7eefbba7b822c1581b5f1b85d469d422387cbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:43 +0000
Subject: [PATCH 62/70] fix: TryGetSubBlockInfo of a reader which is not opened
 throws as all other operations do

---
 Src/libCZI/CZIReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 57ea5d0..5ec64d9 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -225,6 +225,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/bool CCZIReader::TryGetSubBlockInfo(int index, SubBlockInfo* info) const
 {
+    this->ThrowIfNotOperational();
     CCziSubBlockDirectory::SubBlkEntry entry;
     if (this->subBlkDir.TryGetSubBlock(index, entry) == false)
     {
-- 
2.43.0


From 3392c3f3601105e01ec566f45eadf5765236c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:41 +0000
Subject: [PATCH 63/70] fix: zstd-compression does not report a lack of memory
 as 'output buffer too small'

---
 Src/libCZI/zstdCompress.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index c7d90bf..67eab1f 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -65,7 +65,14 @@ static bool CompressZstd(const void* source, size_t sizeSource, void* destinatio
 
     if (ZSTD_isError(r))
     {
-        // the only thing that can go wrong here is that "sizeDestination" is too small
+        if (ZSTD_getErrorCode(r) != ZSTD_error_dstSize_tooSmall)
+        {
+            // anything else than "sizeDestination is too small" (e.g. the zstd-library being unable to allocate memory) must not be reported as such
+            stringstream ss;
+            ss << "zstd-compression failed: " << ZSTD_getErrorName(r);
+            throw runtime_error(ss.str());
+        }
+
         return false;
     }
 
-- 
2.43.0


From b9894633ec39c744bed46cef8544c2106b1e45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 64/70] fix: zero the last byte of a bitmap when hi-lo-packed
 zstd data of odd size is too short

---
 Src/libCZI/decoder_zstd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index a122488..216e973 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -318,7 +318,10 @@ namespace
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
             LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+
+            // fill up the rest with zeroes - note that only complete 16-bit words have been written above, i.e. in case of an odd size the last byte has to be filled as well
+            const size_t packed_size = decompressed_size / 2 * 2;
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + packed_size, 0, expectedSize - packed_size);
             return bitmap;
         }
         else
-- 
2.43.0


From ba4e25906966d62dc4daa51b21440cca1652f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:59 +0000
Subject: [PATCH 65/70] fix: reading a number from an XML node whose text ends
 with a space never returned

---
 Src/libCZI/CziMetadata.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index 5553cd0..afffc3e 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -128,6 +128,8 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
                 {
                     return false;
                 }
+
+                ++posFirstCharNotParsed;
             }
         }
         catch (invalid_argument&)
-- 
2.43.0


From bf38e7fcece5133cc61c94c7a3e687a64ee83cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:15 +0000
Subject: [PATCH 66/70] fix: asking for a sub-block or attachment with a
 negative index threw out_of_range instead of reporting that there is none

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 2d30d10..3563097 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 3067963..23d3463 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -416,7 +416,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From c832f2ad95967959b3ad4c1e32da828286435c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:40 +0000
Subject: [PATCH 67/70] fix: copying with a mask into a bitmap of another pixel
 type only wrote the first pixel of each line

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 9e15afa..7551f09 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -718,10 +718,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From e2300f32db7bfccc8c28337718cf903eabcba24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:40 +0000
Subject: [PATCH 68/70] fix: the tile border was not drawn if the destination
 has another pixel type

---
 Src/libCZI/BitmapOperations.hpp        | 13 +++++++++----
 Src/libCZI/BitmapOperationsBitonal.cpp |  7 +++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index d27569a..d4d4c11 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -55,16 +55,21 @@ namespace libCZI
         template <libCZI::PixelType tSrcPixelType, libCZI::PixelType tDstPixelType, typename tPixelConverter>
         void CBitmapOperations::Copy(const tPixelConverter& conv, const void* srcPtr, int srcStride, void* dstPtr, int dstStride, int width, int height, bool drawTileBorder)
         {
-            (void)drawTileBorder;
-
-            // TODO: -implement "drawBorder"
             for (int y = 0; y < height; ++y)
             {
                 char* dest = ((char*)dstPtr) + y * ((std::ptrdiff_t)dstStride);
                 const char* src = ((const char*)srcPtr) + y * ((std::ptrdiff_t)srcStride);
                 for (int x = 0; x < width; ++x)
                 {
-                    conv.ConvertPixel(dest, src);
+                    if (drawTileBorder && (x == 0 || y == 0 || x == width - 1 || y == height - 1))
+                    {
+                        memset(dest, 0, CziUtils::BytesPerPel<tDstPixelType>());
+                    }
+                    else
+                    {
+                        conv.ConvertPixel(dest, src);
+                    }
+
                     dest += CziUtils::BytesPerPel<tDstPixelType>();;
                     src += CziUtils::BytesPerPel<tSrcPixelType>();;
                 }
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 7551f09..3a5ea87 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -707,14 +707,17 @@ namespace
     template <libCZI::PixelType tSrcPixelType, libCZI::PixelType tDstPixelType, typename tPixelConverter>
     void CopyWithMask(const tPixelConverter& conv, const CopyParameters& parameters)
     {
-        // TODO: -implement "drawBorder"
         for (int y = 0; y < parameters.height; ++y)
         {
             char* dest = static_cast<char*>(parameters.dstPtr) + y * static_cast<std::ptrdiff_t>(parameters.dstStride);
             const char* src = static_cast<const char*>(parameters.srcPtr) + y * static_cast<std::ptrdiff_t>(parameters.srcStride);
             for (int x = 0; x < parameters.width; ++x)
             {
-                if (BitmapOperationsBitonal::GetPixelFromBitonalUnchecked(x + parameters.maskOffsetX, y + parameters.maskOffsetY, parameters.srcMaskPtr, parameters.srcMaskStride))
+                if (parameters.drawTileBorder && (x == 0 || y == 0 || x == parameters.width - 1 || y == parameters.height - 1))
+                {
+                    memset(dest, 0, CziUtils::BytesPerPel<tDstPixelType>());
+                }
+                else if (BitmapOperationsBitonal::GetPixelFromBitonalUnchecked(x + parameters.maskOffsetX, y + parameters.maskOffsetY, parameters.srcMaskPtr, parameters.srcMaskStride))
                 {
                     conv.ConvertPixel(dest, src);
                 }
-- 
2.43.0


From 6e56ab4436e21e9a5ddcfa700eb09838002af2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:22 +0000
Subject: [PATCH 69/70] fix: replacing a sub-block or attachment did not check
 its arguments: invalid ones destroyed the item, crashed or were stored

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index af58b6a..dc4f779 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -175,6 +175,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddSubBlockArguments(addSbBlkInfo);
+
     CCziSubBlockDirectoryBase::SubBlkEntry sbEntryExisting;
     bool b = this->sbBlkDirectory.TryGetSubBlock(key, &sbEntryExisting);
     if (b == false)
@@ -845,6 +849,10 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 /*virtual*/void CCziReaderWriter::ReplaceAttachment(int attchmntId, const libCZI::AddAttachmentInfo& addAttachmentInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddAttachmentArguments(addAttachmentInfo);
+
     CCziAttachmentsDirectoryBase::AttachmentEntry attchmntEntryExisting;
     bool b = this->attachmentDirectory.TryGetAttachment(attchmntId, &attchmntEntryExisting);
     if (b == false)
-- 
2.43.0


From d7bd5623e9ad41e5e147a5cdfcf2e171666eecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:26 +0000
Subject: [PATCH 70/70] fix: Utils::NearestNeighborResize left pixels
 uninitialized when enlarging a bitmap

---
 Src/libCZI/libCZI_Utilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 3bb0066..151a888 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -394,6 +394,9 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 /*static*/std::shared_ptr<libCZI::IBitmapData> Utils::NearestNeighborResize(libCZI::IBitmapData* bmSrc, int dstWidth, int dstHeight)
 {
     auto bmDest = GetSite()->CreateBitmap(bmSrc->GetPixelType(), dstWidth, dstHeight);
+
+    // when enlarging, the right-most columns and the bottom rows are not covered by the source - so they are not left uninitialized
+    CBitmapOperations::Fill(bmDest.get(), { 0,0,0 });
     CBitmapOperations::NNResize(bmSrc, bmDest.get());
     return bmDest;
 }
-- 
2.43.0

